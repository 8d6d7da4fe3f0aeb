---------------------------- MODULE TraceStream ----------------------------
(***************************************************************************)
(* Checks recorded operations on streams of the real library, one line of  *)
(* the trace per stream.  Facets: char, what an operation returns; cursor; *)
(* pos, positions.                                                         *)
(***************************************************************************)
EXTENDS CharStream, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, t, s    \* line, call within it, the stream
tvars == <<l, t, s>>

Line == Trace[l]
Call == Line.calls[t]
O == Call.o
If(c, facet) == IF c THEN {facet} ELSE {}
Report(bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"MISMATCH", Line.id, t, bad>>)

TInit == l = 1 /\ t = 0 /\ s = NewStream(<<>>)
Goto == IF t >= Len(Line.calls) THEN l' = l + 1 /\ t' = 0 ELSE l' = l /\ t' = t + 1
On(op) == l <= Len(Trace) /\ t > 0 /\ Call.op = op /\ Goto

Begin == l <= Len(Trace) /\ t = 0 /\ s' = NewStream(Line.tx) /\ Goto
DoNext == On("next") /\ LET x == Next1(s) IN Report(If(O.r # x.r, "char")) /\ s' = x.s
DoPeek == On("peek") /\ LET x == Peek1(s) IN Report(If(O.r # x.r, "char")) /\ s' = x.s
DoMatch == On("match") /\ LET x == MatchW(s, Call.w) IN Report(If(O.r # x.r \/ O.ok # x.ok, "char")) /\ s' = x.s
DoSkip == On("skip") /\ LET x == Skip(s) IN Report(If(O.r # x.r, "char")) /\ s' = x.s
DoCursor == On("cursor") /\ Report(If(O.n # s.cur, "cursor")) /\ UNCHANGED s
DoPos == On("pos") /\ Report(If(O.p # PosNext(s), "pos")) /\ UNCHANGED s
DoLook == On("look") /\ Report(If(O.p # LookUp(s, Call.i), "pos")) /\ UNCHANGED s
DoBack == On("back") /\ Report(If(Call.n > s.cur, "char")) /\ s' = Back(s, IF Call.n > s.cur THEN s.cur ELSE Call.n)
Done == l > Len(Trace) /\ t = 0 /\ PrintT(<<"DONE", Len(Trace)>>) /\ l' = l + 1 /\ t' = -1 /\ UNCHANGED s

TNext == Begin \/ DoNext \/ DoPeek \/ DoMatch \/ DoSkip \/ DoCursor \/ DoPos \/ DoLook \/ DoBack \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
