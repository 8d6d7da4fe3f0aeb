------------------------------ MODULE MCParse ------------------------------
(***************************************************************************)
(* What is to be true of parsing and searching of whole texts, for all     *)
(* grammars of one or two rules of a small universe and all short texts.   *)
(***************************************************************************)
EXTENDS Parsing, Tree, FiniteSets, TLC

CONSTANTS MaxLen, Big

cA == 97
cB == 98
P == <<112>>   \* names of the rules
Q == <<113>>

Simple == {RChar(cA), RString(<<cA>>), RChars(<<cA, cB>>), RString(<<cB>>), RChar(32)}
Other == {ROpt(RChar(cA)), RRep(RChar(cA), 1, 0), RRep(RString(<<>>), 0, 0), RCat(<<RChar(cA), RString(<<cB>>)>>), RAlt(<<<<RChar(cA), RChars(<<cA, cB>>)>>>>),
          RBlk(RChar(cA), <<>>, <<>>, RChar(cB), FALSE), RBlk(RString(<<>>), <<>>, <<>>, REof, TRUE), REof, RCat(<<RChar(cA), REof>>), RRange(32, cB)}
Rules1 == Simple \cup Other
Pool == IF Big THEN Rules1 ELSE Simple \cup {ROpt(RChar(cA)), RRep(RString(<<>>), 0, 0), REof, RBlk(RChar(cA), <<>>, <<>>, RChar(cB), FALSE), RRep(RChar(cA), 1, 0)}
Grammars2 == {[nm \in {P} |-> r] : r \in Rules1} \cup {[nm \in {P, Q} |-> IF nm = P THEN r ELSE s] : r \in Pool, s \in Pool}
Texts == UNION {[1..n -> {cA, cB, 32}] : n \in 0..MaxLen}

VARIABLE tx
mvars == <<pvars, tx>>
Init == PIdle /\ tx = <<>>
\* roots in either order
Orders(g) == IF DOMAIN g = {P} THEN {<<P>>} ELSE {<<P, Q>>, <<Q, P>>}
Begin == /\ pc = "idle"
         /\ \E g \in Grammars2, w \in Texts :
               /\ tx' = w
               /\ \/ \E o \in Orders(g) : StartParse(g, o, w)
                  \/ DOMAIN g = {P} /\ (StartSearch(g, P, w) \/ StartSearch(g, Q, w))
Next == Begin \/ (PStep /\ UNCHANGED tx)
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

Busy == pc \in {"parse", "search"}
Ended == pc \in {"tree", "error"}

\* it always ends, and every step gets on
Ends == <>Ended
GetsOn == [][Busy => pc' # pc \/ at' > at]_mvars
InText == at >= 1 /\ at <= Len(tx) + 1

\* the text before the current place is that of the nodes, whitespace aside
RECURSIVE Without(_, _, _, _)
Without(d, i, w, j) == IF i > Len(d) THEN j > Len(w)
                       ELSE \/ j <= Len(w) /\ w[j] = d[i] /\ Without(d, i + 1, w, j + 1)
                            \/ IsWS(d[i]) /\ Without(d, i + 1, w, j)
Accounted == pc \in {"parse", "search", "tree"} =>
                Without(SubSeq(tx, 1, at - 1), 1, LeavesOf(out, 1) \o plain, 1)
\* a tree stands for the whole text, an error for nothing
Whole == pc = "tree" => at = Len(tx) + 1 /\ plain = <<>>
Nothing == pc = "error" => out = <<>>
Empty == pc = "parse" => Len(tx) > 0

\* when searching, matches and text in between are exactly the text if no whitespace is skipped in a match
NoSkip == Cardinality(DOMAIN ctx.g) = 1 /\ \A nm \in DOMAIN ctx.g : ctx.g[nm].k \notin {"cat"}
Partition == pc \in {"search", "tree"} /\ flag = NOSKIP /\ NoSkip /\ pc = "tree" => LeavesOf(out, 1) = tx
IsPlain(n) == n.t = "text"
Separate == \A j \in 1..Len(out) : IsPlain(out[j]) => Len(out[j].c) > 0 /\ (j < Len(out) => ~IsPlain(out[j + 1]))
\* a place that was passed over has no match, one that was not is a match of the rule there
Undefined == pc = "error" /\ flag = NOSKIP => roots[1] \notin DOMAIN ctx.g

\* in which order the roots are does not matter
RECURSIVE Run(_, _, _, _, _, _)
Run(g, rts, w, i, f, acc) ==
    IF i > Len(w) THEN [ok |-> TRUE, out |-> acc]
    ELSE LET b == BestRoot(rts, 1, i, f, Ctx(g, w), NoRoot)
         IN IF b.num = 1 /\ b.e > i THEN Run(g, rts, w, b.e, NextFlag(b.st), Append(acc, b.nd)) ELSE [ok |-> FALSE, out |-> <<>>]
Reversed == Ended /\ flag # NOSKIP /\ Len(tx) > 0 /\ Len(roots) = 2 =>
               LET y == Run(ctx.g, <<roots[2], roots[1]>>, tx, 1, SKIPHINT, <<>>)
               IN y.ok = (pc = "tree") /\ y.out = out
=============================================================================
