--------------------------- MODULE TraceConStream ---------------------------
(***************************************************************************)
(* Checks recorded histories of one stream used by several goroutines:     *)
(* there must be an order of the operations that respects which ended      *)
(* before which started, and in which the stream gives the results         *)
(* observed (linearizability).                                             *)
(*                                                                         *)
(* The trace has several histories per line.  Each operation has the       *)
(* numbers of its start and its end.  The specification goes through them  *)
(* in order and keeps all the configurations the stream can be in: how far *)
(* it is, and which of the operations in progress took effect.             *)
(* Facet: order - no configuration is left.                                *)
(***************************************************************************)
EXTENDS CharStream, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,     \* line
          h,     \* history within the line
          k,     \* number of the start or end that is next
          pend,  \* operations in progress (indexes into the events)
          confs  \* configurations: cur, top and the set of operations in progress that took effect
tvars == <<l, h, k, pend, confs>>

Line == Trace[l]
Evs == Line.hist[h].evs

RECURSIVE MaxOf(_, _, _)
MaxOf(ns, j, acc) == IF j > Len(ns) THEN acc ELSE MaxOf(ns, j + 1, Max2(acc, ns[j]))
\* how far the text was read before it was handed back
Known(ln) == LET m == MaxOf(ln.back, 1, 0) IN IF m > Len(ln.tx) THEN Len(ln.tx) ELSE m
First(ln) == {[cur |-> 0, top |-> Known(ln), lin |-> {}]}

TInit == l = 1 /\ h = 1 /\ k = 0 /\ pend = {} /\ confs = {}

\* does operation e have the result observed in the stream s; the stream after it
Result(e, s) ==
    CASE e.op = "next" -> LET x == Next1(s) IN [ok |-> e.o.r = x.r, s |-> x.s]
      [] e.op = "peek" -> LET x == Peek1(s) IN [ok |-> e.o.r = x.r, s |-> x.s]
      [] e.op = "match" -> LET x == MatchW(s, e.w) IN [ok |-> e.o.r = x.r /\ e.o.ok = x.ok, s |-> x.s]
      [] e.op = "skip" -> LET x == Skip(s) IN [ok |-> e.o.r = x.r, s |-> x.s]
      [] e.op = "cursor" -> [ok |-> e.o.n = s.cur, s |-> s]
      [] e.op = "pos" -> [ok |-> e.o.p = PosNext(s), s |-> s]
      [] e.op = "look" -> [ok |-> e.o.p = LookUp(s, e.i), s |-> s]

StreamOf(c) == [tx |-> Line.tx, cur |-> c.cur, top |-> c.top]

\* all configurations reached from cs by operations in progress taking effect
RECURSIVE Effects(_, _)
Effects(new, all) ==
    LET more == UNION {{LET x == Result(Evs[j], StreamOf(c))
                        IN IF x.ok THEN [cur |-> x.s.cur, top |-> x.s.top, lin |-> c.lin \cup {j}] ELSE c
                        : j \in pend \ c.lin} : c \in new} \ all
    IN IF more = {} THEN all ELSE Effects(more, all \cup more)

Start == /\ l <= Len(Trace) /\ h <= Len(Line.hist) /\ k > 0 /\ confs # {}
         /\ \E j \in 1..Len(Evs) : Evs[j].a = k /\ pend' = pend \cup {j}
         /\ k' = k + 1 /\ UNCHANGED <<l, h, confs>>
End == /\ l <= Len(Trace) /\ h <= Len(Line.hist) /\ k > 0 /\ confs # {}
       /\ \E j \in 1..Len(Evs) :
             /\ Evs[j].b = k
             /\ LET cs == {c \in Effects(confs, confs) : j \in c.lin}
                IN confs' = {[c EXCEPT !.lin = c.lin \ {j}] : c \in cs}
             /\ pend' = pend \ {j}
       /\ k' = k + 1 /\ UNCHANGED <<l, h>>

Begin == /\ l <= Len(Trace) /\ h <= Len(Line.hist) /\ k = 0
         /\ k' = 1 /\ pend' = {} /\ confs' = First(Line) /\ UNCHANGED <<l, h>>

\* a history is through, or nothing explains it
Over == /\ l <= Len(Trace) /\ h <= Len(Line.hist) /\ k > 0
        /\ (confs = {} \/ k > 2 * Len(Evs))
        /\ IF confs = {} THEN PrintT(<<"MISMATCH", Line.id, h, {"order"}>>) ELSE TRUE
        /\ h' = h + 1 /\ k' = 0 /\ pend' = {} /\ confs' = {} /\ UNCHANGED l
NextLine == l <= Len(Trace) /\ h > Len(Line.hist) /\ l' = l + 1 /\ h' = 1 /\ UNCHANGED <<k, pend, confs>>

Done == l = Len(Trace) + 1 /\ PrintT(<<"DONE", Len(Trace)>>) /\ l' = l + 1 /\ UNCHANGED <<h, k, pend, confs>>

TNext == Begin \/ Start \/ End \/ Over \/ NextLine \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
