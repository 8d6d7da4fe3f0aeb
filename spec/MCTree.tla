------------------------------- MODULE MCTree -------------------------------
(***************************************************************************)
(* What is to be true of the simplification of trees and of their text and *)
(* counts, for all trees of a small universe: first a tree is chosen, then *)
(* passes are done on it in any order.                                     *)
(***************************************************************************)
EXTENDS Tree, Dump, FiniteSets, TLC

CONSTANTS MaxPasses, Big

VARIABLES t0,    \* the tree chosen: its roots
          nds,   \* what it is now
          did    \* passes done
mvars == <<t0, nds, did>>

cA == 97
N == <<110>>
Nd(t, n, c, k, s, v, d, o) == [t |-> t, n |-> n, c |-> c, k |-> k, p |-> IF c = <<>> /\ k = <<>> THEN NoPos ELSE <<1, 1>>, s |-> s, v |-> v, d |-> d, o |-> o]
Leaves1 == {Nd("chars", n, c, <<>>, s, v, d, o) : n \in {<<>>, N}, c \in {<<cA>>, <<>>}, s \in BOOLEAN, v \in BOOLEAN, d \in (IF Big THEN BOOLEAN ELSE {FALSE}), o \in BOOLEAN}
Leaves2 == {Nd("chars", n, c, <<>>, s, v, FALSE, FALSE) : n \in {<<>>, N}, c \in (IF Big THEN {<<98>>, <<32>>, <<>>} ELSE {<<98>>, <<>>}), s \in BOOLEAN, v \in (IF Big THEN BOOLEAN ELSE {FALSE})}
\* sticky exactly if all below are, as parsing makes it
AllSticky(k) == \A j \in 1..Len(k) : k[j].s
Inner(K) == {Nd("concatenate", n, <<>>, k, AllSticky(k), FALSE, FALSE, FALSE) : n \in {<<>>, N}, k \in K}
            \cup {Nd("block", <<>>, <<>>, k, FALSE, FALSE, FALSE, FALSE) : k \in {q \in K : Len(q) > 1}}
Pairs(S, T) == {<<p, q>> : p \in S, q \in T}
Singles(S) == {<<p>> : p \in S}
Level1 == Inner(Pairs(Leaves1, Leaves2) \cup Singles(Leaves1))
Level2 == Inner(Pairs(Inner(Pairs({l \in Leaves1 : ~l.v /\ ~l.d}, {l \in Leaves2 : ~l.v /\ l.c # <<32>>})), {l \in Leaves2 : ~l.v /\ l.s}))

Side == IF Big THEN {l \in Leaves2 : ~l.v /\ l.c # <<32>>} ELSE {l \in Leaves2 : l.s /\ ~l.v /\ l.c = <<98>>}
\* first the root, then one of its neighbours (or none), then passes
Init == t0 \in {<<r>> : r \in Level1 \cup (IF Big THEN Level2 ELSE {})} /\ nds = t0 /\ did = <<"root">>
Neighbour == /\ did = <<"root">>
             /\ \/ t0' = t0
                \/ Len(t0[1].k[1].k) = 0 /\ \E l \in Side : t0' = Append(t0, l) \/ t0' = <<l>> \o t0
             /\ nds' = t0' /\ did' = <<>>
DoPass == /\ did # <<"root">> /\ Len(did) < MaxPasses
          /\ \E op \in {"merge", "virtual", "nondata", "redundant"} : nds' = Pass(nds, op) /\ did' = Append(did, op)
          /\ UNCHANGED t0
Next == Neighbour \/ DoPass
Spec == Init /\ [][Next]_mvars

------------------------------------------------------------------------------
Did(op) == \E j \in 1..Len(did) : did[j] = op
Removing == Did("virtual") \/ Did("nondata")
RECURSIVE All(_), AllOf(_, _)
AllOf(k, m) == IF m > Len(k) THEN <<>> ELSE All(k[m]) \o AllOf(k, m + 1)
All(nd) == <<nd>> \o AllOf(nd.k, 1)
Nodes0 == AllOf(t0, 1)
Now == AllOf(nds, 1)

\* nothing is lost unless something is removed on purpose; the leaves keep their order
TextKept == ~Removing => LeavesOf(nds, 1) = LeavesOf(t0, 1)

\* the text of nodes not marked (and not below marked ones) is kept by removing them
RECURSIVE LiveText(_, _)
LiveText(k, m) == IF m > Len(k) THEN <<>>
                  ELSE (IF k[m].v THEN <<>> ELSE IF Len(k[m].k) = 0 THEN Own(k[m]) ELSE LiveText(k[m].k, 1)) \o LiveText(k, m + 1)
VirtualGone == did = <<"virtual">> => LeavesOf(nds, 1) = LiveText(t0, 1) /\ \A j \in 1..Len(Now) : ~Now[j].v
NonDataGone == Len(did) > 0 /\ did[Len(did)] = "nondata" => \A j \in 1..Len(Now) : ~Now[j].d

\* a node that is a token or not sticky is never merged: its text stays the text of one node
Names(ns) == SelectSeq([j \in 1..Len(ns) |-> IF ns[j].n # <<>> THEN <<ns[j].n, Leaves(ns[j])>> ELSE <<>>], LAMBDA q : q # <<>>)
TokensKept == did = <<"merge">> =>
                 \A j \in 1..Len(Nodes0) : Nodes0[j].o /\ Nodes0[j].c # <<>> /\ ~(\E m \in 1..Len(Nodes0) : Len(Nodes0[m].k) > 0 /\ Nodes0[m].s)
                    => \E m \in 1..Len(Now) : Now[m].o /\ Now[m].c = Nodes0[j].c

\* named nodes stay, in order and with the text of their leaves, when unnamed ones are dropped, but for those below an
\* unnamed one without any text, which goes with all below it (roots stay, and non-data ones are left alone)
Entry(nd) == IF nd.n # <<>> THEN <<<<nd.n, Leaves(nd)>>>> ELSE <<>>
RECURSIVE KeptNames(_, _)
KeptNames(k, m) == IF m > Len(k) THEN <<>>
                   ELSE (IF k[m].n = <<>> /\ Len(Text(k[m])) = 0 THEN <<>> ELSE Entry(k[m]) \o KeptNames(k[m].k, 1)) \o KeptNames(k, m + 1)
RECURSIVE KeptRoots(_)
KeptRoots(m) == IF m > Len(t0) THEN <<>>
                ELSE (IF t0[m].d THEN Names(All(t0[m])) ELSE Entry(t0[m]) \o KeptNames(t0[m].k, 1)) \o KeptRoots(m + 1)
NamedKept == did = <<"redundant">> => Names(Now) = KeptRoots(1)
\* and what is left of unnamed nodes below others has text
Needed == Len(did) > 0 /\ did[Len(did)] = "redundant" =>
             \A j \in 1..Len(Now) : \A m \in 1..Len(Now[j].k) : Now[j].k[m].n = <<>> => Len(Text(Now[j].k[m])) > 0

\* doing it again changes nothing
Again == Len(did) > 0 /\ did[Len(did)] \in {"virtual", "nondata"} => Pass(nds, did[Len(did)]) = nds
MergeAgain == did = <<"merge">> => LeavesOf(Merge(nds), 1) = LeavesOf(nds, 1) /\ Len(Merge(nds)) = Len(nds)

\* blocks keep their parts
BlocksKept == did = <<"merge">> =>
                 LET bs(ns) == SelectSeq(ns, LAMBDA q : q.t = "block")
                 IN Len(bs(Now)) = Len(bs(Nodes0)) /\ \A j \in 1..Len(bs(Now)) : Len(bs(Now)[j].k) = Len(bs(Nodes0)[j].k)

\* counts are those of the nodes there are
Counts == \A j \in 1..Len(nds) :
             /\ Nodes(nds[j]) = Len(All(nds[j]))
             /\ Tokens(nds[j]) = Cardinality({m \in 1..Len(All(nds[j])) : Len(All(nds[j])[m].k) = 0})
             /\ Stickies(nds[j]) = Cardinality({m \in 1..Len(All(nds[j])) : All(nds[j])[m].s})
\* the text is that of the leaves, with spaces put in between only
RECURSIVE Spaced(_, _, _, _)
Spaced(d, i, w, j) == IF i > Len(d) THEN j > Len(w)
                      ELSE \/ j <= Len(w) /\ w[j] = d[i] /\ Spaced(d, i + 1, w, j + 1)
                           \/ d[i] = 32 /\ Spaced(d, i + 1, w, j)
TextIsLeaves == \A j \in 1..Len(nds) : Spaced(Text(nds[j]), 1, Leaves(nds[j]), 1)
\* every node has one line of its own in the dump (leaves without newlines)
RECURSIVE Newlines(_, _)
Newlines(w, j) == IF j > Len(w) THEN 0 ELSE (IF w[j] = 10 THEN 1 ELSE 0) + Newlines(w, j + 1)
Dumped == \A j \in 1..Len(nds) : (\A m \in 1..Len(All(nds[j])) : Len(All(nds[j])[m].k) > 0 => All(nds[j])[m].t \in Container) =>
             Newlines(DumpNode(nds[j], [type |-> TRUE, text |-> FALSE]), 1) = Nodes(nds[j]) - 1
\* the levels are these passes in this order
Levels == did = <<>> => /\ Simplify(nds, -1) = nds
                        /\ Simplify(nds, 0) = Passes(nds, <<"merge", "redundant">>, 1)
                        /\ Simplify(nds, 1) = Passes(nds, <<"merge", "virtual", "redundant">>, 1)
                        /\ Simplify(nds, 2) = Passes(nds, <<"merge", "virtual", "nondata", "redundant">>, 1)
=============================================================================
