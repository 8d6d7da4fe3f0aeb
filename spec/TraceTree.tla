----------------------------- MODULE TraceTree -----------------------------
(***************************************************************************)
(* Checks recorded simplification passes, texts, counts and dumps of trees *)
(* of the real library against the specification.  The trace has one line  *)
(* per tree: its nodes to begin with (built by a user or parsed), for a    *)
(* parsed one also what parsing gave at each level, and the calls made.    *)
(*   pass  - the tree after a pass;   level - the tree a level gives       *)
(*   text, count, dump - what was asked for;                               *)
(*   keep  - the tree changed although it was only asked for something     *)
(***************************************************************************)
EXTENDS Dump, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,    \* line of the trace
          t,    \* call within the line, 0: still to begin
          nds,  \* the tree
          was   \* the tree before the last call and the pass that was applied to it ("" none)

tvars == <<l, t, nds, was>>

Line == Trace[l]
Call == Line.calls[t]
If(c, facet) == IF c THEN {facet} ELSE {}
Report(bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"MISMATCH", Line.id, t, bad>>)

TInit == l = 1 /\ t = 0 /\ nds = <<>> /\ was = [nds |-> <<>>, op |-> ""]

Next1 == IF t >= Len(Line.calls) THEN l' = l + 1 /\ t' = 0 ELSE l' = l /\ t' = t + 1

Begin ==
    /\ l <= Len(Trace) /\ t = 0
    /\ LET lvs == Line.lvs
       IN Report(If(\E j \in 1..Len(lvs) : ~lvs[j].ok \/ lvs[j].nds # Simplify(Line.nds, lvs[j].lv), "level"))
    /\ nds' = Line.nds /\ was' = [nds |-> <<>>, op |-> ""]
    /\ Next1

\* the node at a path of indexes from 0
RECURSIVE NodeAt(_, _, _)
NodeAt(list, path, j) == LET nd == list[path[j] + 1] IN IF j = Len(path) THEN nd ELSE NodeAt(nd.k, path, j + 1)
RECURSIVE PassAt(_, _, _, _)
PassAt(list, path, j, op) ==
    [list EXCEPT ![path[j] + 1] = IF j = Len(path) THEN PassNode(@, op)
                                  ELSE [@ EXCEPT !.k = PassAt(@, path, j + 1, op)]]

Apply == IF Len(Call.at) = 0 THEN Pass(nds, Call.op) ELSE PassAt(nds, Call.at, 1, Call.op)

PassCall ==
    /\ l <= Len(Trace) /\ t > 0 /\ Call.op \in {"merge", "virtual", "nondata", "redundant"}
    /\ LET want == Apply
       IN /\ Report(If(Call.o.nds # want, "pass"))
          /\ nds' = Call.o.nds        \* goes on from what was observed
          /\ was' = [nds |-> IF Len(Call.at) = 0 THEN nds ELSE <<>>, op |-> IF Len(Call.at) = 0 /\ Call.o.nds = want THEN Call.op ELSE ""]
    /\ Next1

RECURSIVE Total(_, _, _)
Total(list, m, acc) == IF m > Len(list) THEN acc
                       ELSE Total(list, m + 1, <<acc[1] + Nodes(list[m]), acc[2] + Tokens(list[m]), acc[3] + Stickies(list[m])>>)
Counts == IF Len(Call.at) = 0 THEN Total(nds, 1, <<0, 0, 0>>)
          ELSE LET nd == NodeAt(nds, Call.at, 1) IN <<Nodes(nd), Tokens(nd), Stickies(nd)>>
\* without a configuration: the kinds, and the texts of leaves alone
Cfg == IF Call.std THEN [type |-> TRUE, text |-> FALSE] ELSE [type |-> Call.type, text |-> Call.text]
Dumped == IF Len(Call.at) = 0 THEN DumpFile(nds, Cfg, Call.file)
          ELSE IF Call.via = "result" THEN DumpResult(NodeAt(nds, Call.at, 1), Cfg, Call.rd, Call.un)
          ELSE DumpNode(NodeAt(nds, Call.at, 1), Cfg)

AskCall ==
    /\ l <= Len(Trace) /\ t > 0 /\ Call.op \in {"text", "count", "dump"}
    /\ LET good == CASE Call.op = "text" -> Call.o.tx = (IF Len(Call.at) = 0 THEN FlatText(nds, 1) ELSE Text(NodeAt(nds, Call.at, 1)))
                     [] Call.op = "count" -> Call.o.cnt = Counts
                     [] Call.op = "dump" -> Call.o.tx = Dumped
       IN Report(If(~good, Call.op) \cup If(Call.o.nds # nds, "keep"))
    /\ nds' = Call.o.nds /\ was' = [nds |-> <<>>, op |-> ""]
    /\ Next1

\* a tree, or a node, there is not
NoneCall ==
    /\ l <= Len(Trace) /\ t > 0 /\ Call.op = "none"
    /\ Report(If(Call.o.tx # <<>>, "text") \cup If(Call.o.cnt # <<0, 0, 0, 0, 0, 0>>, "count") \cup If(Call.o.dump # NoTree, "dump"))
    /\ UNCHANGED nds /\ was' = [nds |-> <<>>, op |-> ""]
    /\ Next1

Done == /\ l > Len(Trace) /\ t = 0
        /\ PrintT(<<"DONE", Len(Trace)>>)
        /\ l' = l + 1 /\ t' = -1 /\ UNCHANGED <<nds, was>>

TNext == Begin \/ PassCall \/ AskCall \/ NoneCall \/ Done
TSpec == TInit /\ [][TNext]_tvars

------------------------------------------------------------------------------
(* What the passes are for, evaluated on every pass over a whole tree that *)
(* went as specified.                                                      *)
RECURSIVE NamesIn(_), NamesOf(_, _)
NamesOf(list, m) == IF m > Len(list) THEN <<>> ELSE NamesIn(list[m]) \o NamesOf(list, m + 1)
NamesIn(nd) == (IF nd.n = <<>> THEN <<>> ELSE <<nd.n>>) \o NamesOf(nd.k, 1)

NoWs(w) == SelectSeq(w, LAMBDA c : ~IsWS(c))
Kept(list) == NoWs(LeavesOf(list, 1))

\* Sequence a is b with some elements left out
RECURSIVE Sub(_, _, _, _)
Sub(a, b, i, j) == i > Len(a) \/ (j <= Len(b) /\ IF a[i] = b[j] THEN Sub(a, b, i + 1, j + 1) ELSE Sub(a, b, i, j + 1))

RECURSIVE AnyV(_, _), AnyD(_, _)
AnyV(list, m) == m <= Len(list) /\ (list[m].v \/ AnyV(list[m].k, 1) \/ AnyV(list, m + 1))
AnyD(list, m) == m <= Len(list) /\ (list[m].d \/ AnyD(list[m].k, 1) \/ AnyD(list, m + 1))

\* names of the nodes that have text
RECURSIVE FullIn(_), FullOf(_, _)
FullOf(list, m) == IF m > Len(list) THEN <<>> ELSE FullIn(list[m]) \o FullOf(list, m + 1)
FullIn(nd) == (IF nd.n = <<>> \/ Len(Text(nd)) = 0 THEN <<>> ELSE <<nd.n>>) \o FullOf(nd.k, 1)

Sound ==
    /\ was.op = "merge" => Kept(nds) = Kept(was.nds) /\ Sub(NamesOf(nds, 1), NamesOf(was.nds, 1), 1, 1)
    /\ was.op = "virtual" => /\ ~AnyV(nds, 1)
                             /\ Sub(NamesOf(nds, 1), NamesOf(was.nds, 1), 1, 1)
                             /\ (~AnyV(was.nds, 1) => nds = was.nds)
    /\ was.op = "nondata" => /\ ~AnyD(nds, 1)
                             /\ Sub(NamesOf(nds, 1), NamesOf(was.nds, 1), 1, 1)
                             /\ (~AnyD(was.nds, 1) => nds = was.nds)
    /\ was.op = "redundant" => /\ Kept(nds) = Kept(was.nds) /\ FullOf(nds, 1) = FullOf(was.nds, 1)
                               /\ Sub(NamesOf(nds, 1), NamesOf(was.nds, 1), 1, 1)
=============================================================================
