-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Trees of nodes: their text, the simplification passes, counts, dump.    *)
(* See Rules for the fields of a node.                                     *)
(***************************************************************************)
EXTENDS Chars

------------------------------------------------------------------------------
(* Text                                                                    *)
Own(nd) == IF nd.c = <<EOFc>> THEN <<>> ELSE nd.c

RECURSIVE Text(_), TextOf(_, _, _)
\* the texts of the nodes from m on appended to acc, a space put in between where needed
TextOf(nd, m, acc) ==
    IF m > Len(nd.k) THEN acc
    ELSE LET w == Text(nd.k[m])
             space == /\ nd.t # "block"
                      /\ Len(acc) > 0 /\ ~IsWS(acc[Len(acc)])
                      /\ Len(w) > 0 /\ ~IsWS(w[1])
                      /\ ~(nd.k[m - 1].s /\ nd.k[m].s)
         IN TextOf(nd, m + 1, IF space THEN acc \o <<32>> \o w ELSE acc \o w)
Text(nd) == IF Len(nd.c) > 0 THEN Own(nd) ELSE TextOf(nd, 1, <<>>)

RECURSIVE FlatText(_, _)
\* text of a list of trees
FlatText(nds, m) == IF m > Len(nds) THEN <<>> ELSE Text(nds[m]) \o FlatText(nds, m + 1)

RECURSIVE Leaves(_), LeavesOf(_, _)
LeavesOf(nds, m) == IF m > Len(nds) THEN <<>> ELSE Leaves(nds[m]) \o LeavesOf(nds, m + 1)
\* the texts of the leaves, nothing in between
Leaves(nd) == IF Len(nd.k) = 0 THEN Own(nd) ELSE LeavesOf(nd.k, 1)

------------------------------------------------------------------------------
(* Counts                                                                  *)
RECURSIVE Nodes(_), Tokens(_), Stickies(_), SumNodes(_, _), SumTokens(_, _), SumStickies(_, _)
SumNodes(k, m) == IF m > Len(k) THEN 0 ELSE Nodes(k[m]) + SumNodes(k, m + 1)
SumTokens(k, m) == IF m > Len(k) THEN 0 ELSE Tokens(k[m]) + SumTokens(k, m + 1)
SumStickies(k, m) == IF m > Len(k) THEN 0 ELSE Stickies(k[m]) + SumStickies(k, m + 1)
Nodes(nd) == 1 + SumNodes(nd.k, 1)
Tokens(nd) == IF Len(nd.k) = 0 THEN 1 ELSE SumTokens(nd.k, 1)
Stickies(nd) == (IF nd.s THEN 1 ELSE 0) + SumStickies(nd.k, 1)

------------------------------------------------------------------------------
(* Merging of sticky siblings                                              *)
RECURSIVE MergeNode(_), MergeList(_, _, _, _), MergeEach(_, _, _)
NotSticky(acc) == IF Len(acc) = 0 THEN acc ELSE [acc EXCEPT ![Len(acc)].s = FALSE]
\* acc: the siblings kept so far; open: the last of them is sticky and may be merged with
MergeList(nds, m, acc, open) ==
    IF m > Len(nds) THEN IF open THEN NotSticky(acc) ELSE acc
    ELSE LET nd == nds[m]
         IN IF nd.s
            THEN IF open /\ ~nd.o /\ ~acc[Len(acc)].o
                 THEN LET last == acc[Len(acc)]
                          merged == [last EXCEPT !.c = last.c \o Text(nd),
                                                 !.p = IF last.p = NoPos THEN nd.p ELSE last.p]
                      IN MergeList(nds, m + 1, [acc EXCEPT ![Len(acc)] = merged], TRUE)
                 ELSE MergeList(nds, m + 1,
                                Append(IF open THEN NotSticky(acc) ELSE acc,
                                       [nd EXCEPT !.c = Text(nd), !.k = <<>>]), TRUE)
            ELSE MergeList(nds, m + 1, Append(IF open THEN NotSticky(acc) ELSE acc, MergeNode(nd)), FALSE)
MergeEach(k, m, acc) ==
    IF m > Len(k) THEN acc ELSE MergeEach(k, m + 1, Append(acc, [MergeNode(k[m]) EXCEPT !.s = FALSE]))
MergeNode(nd) ==
    IF Len(nd.k) = 0 THEN nd
    ELSE IF nd.t = "block" THEN [nd EXCEPT !.k = MergeEach(nd.k, 1, <<>>), !.s = FALSE]
    ELSE [nd EXCEPT !.k = MergeList(nd.k, 1, <<>>, FALSE)]
Merge(nds) == MergeList(nds, 1, <<>>, FALSE)

------------------------------------------------------------------------------
(* Removal of virtual and of non-data nodes                                *)
RECURSIVE DropVirtual(_, _, _), DropNonData(_, _, _)
DropVirtual(nds, m, acc) ==
    IF m > Len(nds) THEN acc
    ELSE IF nds[m].v THEN DropVirtual(nds, m + 1, acc)
    ELSE DropVirtual(nds, m + 1, Append(acc, [nds[m] EXCEPT !.k = DropVirtual(nds[m].k, 1, <<>>)]))
DropNonData(nds, m, acc) ==
    IF m > Len(nds) THEN acc
    ELSE IF nds[m].d THEN DropNonData(nds, m + 1, acc)
    ELSE DropNonData(nds, m + 1, Append(acc, [nds[m] EXCEPT !.k = DropNonData(nds[m].k, 1, <<>>)]))
RemoveVirtual(nds) == DropVirtual(nds, 1, <<>>)
RemoveNonData(nds) == DropNonData(nds, 1, <<>>)

------------------------------------------------------------------------------
(* Removal of redundant (unnamed) nodes below a node                       *)
RECURSIVE Lift(_), LiftEach(_, _, _), LiftList(_, _, _)
LiftEach(k, m, acc) == IF m > Len(k) THEN acc ELSE LiftEach(k, m + 1, Append(acc, Lift(k[m])))
\* children in place of unnamed nodes that have some, unnamed nodes without text dropped
LiftList(k, m, acc) ==
    IF m > Len(k) THEN acc
    ELSE LiftList(k, m + 1,
                  IF k[m].n # <<>> THEN Append(acc, k[m])
                  ELSE IF Len(Text(k[m])) = 0 THEN acc
                  ELSE IF Len(k[m].k) > 0 THEN acc \o k[m].k
                  ELSE Append(acc, k[m]))
Lift(nd) ==
    IF Len(nd.k) = 0 THEN nd
    ELSE LET k1 == LiftEach(nd.k, 1, <<>>)
             only == Len(k1) = 1 /\ k1[1].n = <<>>
             nd1 == IF only /\ Len(k1[1].c) > 0 THEN [nd EXCEPT !.c = k1[1].c, !.k = <<>>]
                    ELSE IF only THEN [nd EXCEPT !.k = k1[1].k]
                    ELSE [nd EXCEPT !.k = k1]
             nd2 == [nd1 EXCEPT !.k = LiftList(nd1.k, 1, <<>>)]
         IN IF Len(nd2.k) = 1 /\ nd2.k[1].n = <<>> /\ Len(nd2.k[1].k) = 0
            THEN [nd2 EXCEPT !.c = nd2.k[1].c, !.k = <<>>]
            ELSE nd2
\* on a whole tree non-data roots are left alone
RemoveRedundant(nds) == [m \in 1..Len(nds) |-> IF nds[m].d THEN nds[m] ELSE Lift(nds[m])]

------------------------------------------------------------------------------
(* The levels of simplification                                            *)
Simplify(nds, level) ==
    IF level = -1 THEN nds
    ELSE IF level = 2 THEN RemoveRedundant(RemoveNonData(RemoveVirtual(Merge(nds))))
    ELSE IF level = 1 THEN RemoveRedundant(RemoveVirtual(Merge(nds)))
    ELSE RemoveRedundant(Merge(nds))

\* a pass on the roots of a tree / on one node
Pass(nds, op) == CASE op = "merge" -> Merge(nds)
                   [] op = "virtual" -> RemoveVirtual(nds)
                   [] op = "nondata" -> RemoveNonData(nds)
                   [] op = "redundant" -> RemoveRedundant(nds)
PassNode(nd, op) == CASE op = "merge" -> MergeNode(nd)
                      [] op = "virtual" -> [nd EXCEPT !.k = RemoveVirtual(nd.k)]
                      [] op = "nondata" -> [nd EXCEPT !.k = RemoveNonData(nd.k)]
                      [] op = "redundant" -> Lift(nd)
RECURSIVE Passes(_, _, _), PassesNode(_, _, _)
Passes(nds, ops, m) == IF m > Len(ops) THEN nds ELSE Passes(Pass(nds, ops[m]), ops, m + 1)
PassesNode(nd, ops, m) == IF m > Len(ops) THEN nd ELSE PassesNode(PassNode(nd, ops[m]), ops, m + 1)
=============================================================================
