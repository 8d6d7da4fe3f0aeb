------------------------------ MODULE MCRules ------------------------------
(***************************************************************************)
(* What is to be true of the meaning of rules, for all rules of a small    *)
(* universe at all places of all short texts: one state per case.          *)
(***************************************************************************)
EXTENDS Rules, TLC

CONSTANTS MaxLen,   \* length of the texts
          Part,     \* which universe of rules: "leaves", "two", "blocks", "deep"
          Big       \* all of it

VARIABLES r, tx, f
mvars == <<r, tx, f>>

cA == 97
cB == 98
cX == 120
G0 == [q \in {<<113>>} |-> RAlt(<<<<RChar(cA), RChars(<<cA, cB>>)>>>>)]
G1 == [nm \in {<<113>>, <<119>>} |-> IF nm = <<113>> THEN RAlt(<<<<RChar(cB), RGrp(RCat(<<RChar(cA), RRef(<<113>>)>>))>>>>)
                                     ELSE RCat(<<RString(<<cA>>), ROpt(RRef(<<113>>))>>)]
Annot(rr, o, v, d) == [rr EXCEPT !.o = o, !.v = v, !.d = d]

Leaf == {RChar(cA), RChars(<<cA, cB>>), RString(<<cA>>), RString(<<cB, cA>>), RChar(32), RString(<<>>), RRange(cA, cB), REof,
         RRef(<<113>>), RRef(<<120>>), RChars(<<32, cA>>)}
Few == {RChar(cA), RString(<<cA>>), RChars(<<cA, cB>>), RString(<<>>), RChar(32)}
Bounds == {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<0, 1>>, <<0, 2>>, <<1, 2>>, <<2, 2>>}

Unary(S) == {ROpt(q) : q \in S} \cup {RGrp(q) : q \in S} \cup {RRep(q, m[1], m[2]) : q \in S, m \in Bounds}
Binary(S, T) == {RCat(<<p, q>>) : p \in S, q \in T} \cup {RAlt(<<<<p, q>>>>) : p \in S, q \in T} \cup {RAlt(<<<<p>>, <<q>>>>) : p \in S, q \in T}
Ternary(S) == {RAlt(<<<<p, q, s>>>>) : p \in S, q \in S, s \in S} \cup {RAlt(<<<<p, q>>, <<s>>>>) : p \in S, q \in S, s \in S}
              \cup {RCat(<<p, q, s>>) : p \in S, q \in S, s \in S}
Blocks == {RBlk(o, e, y, c, vc) : o \in {RChar(cA), RString(<<>>)}, e \in {<<>>, <<RChar(cB)>>, <<ROpt(RChar(cB))>>},
                                   y \in {<<>>, <<RChar(cX)>>, <<RChar(cX), RChars(<<cX, cX>>)>>}, c \in {RChar(cB), RString(<<cB>>), REof}, vc \in BOOLEAN}

Two == {RChar(cA), RString(<<cA>>)}
Universe == CASE Part = "leaves" -> Leaf \cup Unary(Leaf)
              [] Part = "two" /\ Big -> Binary(Leaf, Leaf) \cup Ternary(Few)
              [] Part = "two" -> Binary(Few, Few) \cup Ternary(Two \cup {RString(<<>>)})
              [] Part = "blocks" /\ Big -> Blocks \cup {RCat(<<k, q>>) : k \in Blocks, q \in {RChar(cB), ROpt(RString(<<cB>>))}}
              [] Part = "blocks" -> Blocks
              [] Part = "deep" /\ Big -> Unary(Binary(Few, Few)) \cup Binary(Unary(Few), Few) \cup Binary(Few, Unary(Few)) \cup Unary(Unary(Few))
              [] OTHER -> Unary(Binary(Two, Two)) \cup Unary({ROpt(RString(<<cA>>)), RRep(RChar(cA), 0, 0), RRep(RString(<<>>), 0, 0)})
Alphabet == IF Part = "blocks" THEN {cA, cB, cX} ELSE {cA, cB, 32}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}

\* a rule is chosen first, then a text to it
Init == r \in Universe /\ tx = <<>> /\ f = -1
Next == f = -1 /\ tx' \in Texts /\ f' \in {NOSKIPHINT, SKIPHINT, NOSKIP} /\ UNCHANGED r
Spec == Init /\ [][Next]_mvars

C(w, g) == [g |-> g, tx |-> w, ps |-> Positions(w)]
Flag == IF f = -1 THEN SKIPHINT ELSE f
E(rr) == Eval(<<>>, rr, 1, Flag, C(tx, G0))
R0 == E(r)

------------------------------------------------------------------------------
\* a match ends in the text, and ends are never before the start
Within == R0.ok => R0.e >= 1 /\ R0.e <= Len(tx) + 1

\* what is before a place makes no difference but for positions
RECURSIVE Bare0(_), BareAll(_, _, _)
BareAll(k, m, acc) == IF m > Len(k) THEN acc ELSE BareAll(k, m + 1, Append(acc, Bare0(k[m])))
Bare0(nd) == [nd EXCEPT !.p = NoPos, !.k = BareAll(nd.k, 1, <<>>)]
Local == \A pre \in {<<cA>>, <<cB, 32>>, <<10>>} :
            LET y == Eval(<<>>, r, Len(pre) + 1, Flag, C(pre \o tx, G0))
            IN /\ y.ok = R0.ok /\ y.st = R0.st
               /\ y.ok => y.e = R0.e + Len(pre) /\ Bare0(y.nd) = Bare0(R0.nd)

\* the chars of the leaves are the text but for whitespace (rules without blocks: escapes)
RECURSIVE LeafText(_), LeafTexts(_, _)
LeafTexts(k, m) == IF m > Len(k) THEN <<>> ELSE LeafText(k[m]) \o LeafTexts(k, m + 1)
LeafText(nd) == IF Len(nd.k) > 0 THEN LeafTexts(nd.k, 1) ELSE IF nd.c = <<EOFc>> THEN <<>> ELSE nd.c
RECURSIVE Without(_, _, _, _)
\* w is d[i..] with some whitespace left out
Without(d, i, w, j) == IF i > Len(d) THEN j > Len(w)
                       ELSE \/ j <= Len(w) /\ w[j] = d[i] /\ Without(d, i + 1, w, j + 1)
                            \/ IsWS(d[i]) /\ Without(d, i + 1, w, j)
Faithful == R0.ok /\ Part # "blocks" => Without(SubSeq(tx, 1, R0.e - 1), 1, LeafText(R0.nd), 1)

\* only leaves have chars, a leaf with text has a place at which that text is, places do not go back
RECURSIVE Nodes0(_), Nodes1(_, _)
Nodes1(k, m) == IF m > Len(k) THEN <<>> ELSE Nodes0(k[m]) \o Nodes1(k, m + 1)
Nodes0(nd) == <<nd>> \o Nodes1(nd.k, 1)
Shape == R0.ok => \A j \in 1..Len(Nodes0(R0.nd)) :
            LET n == Nodes0(R0.nd)[j]
            IN /\ Len(n.k) > 0 => Len(n.c) = 0
               /\ Len(n.c) > 0 /\ n.c # <<EOFc>> => (n.p[1] = 1 /\ OccursAt(tx, n.p[2], n.c)) \/ Part = "blocks"
               /\ \A m \in j..Len(Nodes0(R0.nd)) : LET q == Nodes0(R0.nd)[m] IN n.p = NoPos \/ q.p = NoPos \/ n.p[2] <= q.p[2]

\* annotations and grouping change no match
Marks == \A o \in BOOLEAN, v \in BOOLEAN, d \in BOOLEAN :
            LET y == E(Annot(r, o, v, d))
            IN /\ y.ok = R0.ok /\ y.st = R0.st /\ y.ok => y.e = R0.e
               /\ y.ok /\ r.k \notin {"ref"} => y.nd.o = o /\ y.nd.v = v /\ y.nd.d = d
               /\ y.ok /\ r.k = "ref" => y.nd = [R0.nd EXCEPT !.o = (R0.nd.o # o), !.v = (R0.nd.v # v), !.d = (R0.nd.d # d)]
Grouped == LET y == E(RGrp(r)) IN y.ok = R0.ok /\ y.st = R0.st /\ (y.ok => y.e = R0.e /\ y.nd.k = <<R0.nd>>)

\* an option always matches, what is in it or nothing
Optional == LET y == E(ROpt(r)) IN y.ok /\ y.st = R0.st /\ y.e = (IF R0.ok THEN R0.e ELSE 1) /\ y.nd.k = (IF R0.ok THEN <<R0.nd>> ELSE <<>>)

\* a choice does not depend on the order, takes the longest and no tie
Choice ==
    \A g \in {RChar(cA), RString(<<cA>>), RChars(<<cA, cB>>), RString(<<>>)} :
       LET y == E(g)
           c1 == E(RAlt(<<<<r, g>>>>))
           c2 == E(RAlt(<<<<g, r>>>>))
           o1 == E(RAlt(<<<<r>>, <<g>>>>))
       IN /\ c1.ok = c2.ok /\ c1.st = c2.st /\ (c1.ok => c1.e = c2.e /\ c1.nd = c2.nd)
          /\ c1.ok = ((R0.ok \/ y.ok) /\ ~(R0.ok /\ y.ok /\ R0.e = y.e))
          /\ c1.ok => c1.e = Max2(IF R0.ok THEN R0.e ELSE 0, IF y.ok THEN y.e ELSE 0)
          /\ o1.ok = (R0.ok \/ y.ok) /\ (o1.ok => o1.e = IF R0.ok THEN R0.e ELSE y.e)
          /\ o1.ok /\ R0.ok => o1.st = R0.st

\* a repetition has as many rounds as there can be
Repeated ==
    \A m \in Bounds :
       LET y == E(RRep(r, m[1], m[2]))
           n == IF y.ok THEN Len(y.nd.k) ELSE 0
           z == Eval(<<>>, r, y.e, Flag, C(tx, G0))
       IN /\ y.ok => /\ n >= m[1] /\ (m[2] = 0 \/ n <= m[2])
                     /\ \/ m[2] > 0 /\ n = m[2]
                        \/ y.e > Len(tx) \/ ~z.ok \/ z.e = y.e
                     /\ n = 0 => y.e = 1
          \* bounds decide whether it matches and cut it off
          /\ LET star == E(RRep(r, 0, 0))
                 w == Eval(<<>>, r, star.e, Flag, C(tx, G0))
             IN /\ star.ok
                /\ y.ok = (Len(star.nd.k) >= m[1] \/ (star.e <= Len(tx) /\ w.ok))
                /\ y.ok => y.e <= star.e
                /\ y.ok /\ m[2] = 0 => y.e = star.e

\* whitespace before something that has a match is skipped if it is allowed to be
RECURSIVE HasWs(_)
HasWs(q) == CASE q.k \in {"char", "chars", "string"} -> \E j \in 1..Len(q.tx) : IsWS(q.tx[j])
              [] q.k = "range" -> q.a <= 32
              [] q.k \in {"opt", "grp", "rep"} -> HasWs(q.r)
              [] OTHER -> FALSE
Skipping == Part = "leaves" /\ f = SKIPHINT /\ R0.ok /\ R0.e > 1 /\ ~HasWs(r) =>
               LET y == Eval(<<>>, r, 1, SKIPHINT, C(<<32>> \o tx, G0)) IN y.ok /\ y.e = R0.e + 1

\* the same without any whitespace in the text: how it may be skipped makes no difference
Hints == (\A j \in 1..Len(tx) : tx[j] # 32) =>
            LET y == Eval(<<>>, r, 1, SKIPHINT, C(tx, G0)) IN R0.ok = y.ok /\ R0.st = y.st /\ (R0.ok => R0 = y)
=============================================================================
