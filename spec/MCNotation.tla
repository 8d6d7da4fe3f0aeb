----------------------------- MODULE MCNotation -----------------------------
(***************************************************************************)
(* What is to be true of the notation: every rule that can be written is   *)
(* read as itself, in any layout ("rules"); and every text made of the     *)
(* pieces of the notation is either refused or read as a rule which,       *)
(* written again, is read as the same rule ("texts").                      *)
(***************************************************************************)
EXTENDS Printing, FiniteSets, TLC

CONSTANTS What, Big, MaxPieces

VARIABLES r, d, sp   \* the rule, its text, what is between its parts
nvars == <<r, d, sp>>

cA == 97
Ann(q, o, v, dd) == [q EXCEPT !.o = o, !.v = v, !.d = dd]
Lit == {RChar(cA), RChar(39), RChar(92), RChar(10), RChar(55296), RChars(<<cA, 34>>), RChars(<<39, 92>>), RChars(<<47, 47>>), RString(<<>>), RString(<<34>>), RString(<<cA, 32>>),
        RString(<<92, 117>>), RRange(cA, 122), RRange(32, 39), RRange(92, 92), RRange(55296, 57343), RRef(<<cA>>), RRef(<<95, 49>>), REof}
Small == {RChar(cA), RRef(<<cA>>), REof}
Marked(S) == {Ann(q, o, v, dd) : q \in S, o \in BOOLEAN, v \in BOOLEAN, dd \in BOOLEAN}
Bs == {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<0, 1>>, <<1, 1>>, <<2, 12>>, <<10, 0>>}
Unary(S) == {ROpt(q) : q \in S} \cup {RGrp(q) : q \in S} \cup {RRep(q, m[1], m[2]) : q \in S, m \in Bs}
Cats(S, T) == {RCat(<<p, q>>) : p \in S, q \in T}
Alts(S, T) == {RAlt(<<<<p, q>>>>) : p \in S, q \in T} \cup {RAlt(<<<<p>>, <<q, p>>>>) : p \in S, q \in T} \cup {RAlt(<<<<p, q>>, <<p>>, <<q>>>>) : p \in S, q \in T}
Blks(S, T) == {RBlk(o, e, x, c, vc) : o \in S, e \in {<<>>} \cup {<<q>> : q \in T}, x \in {<<>>, <<RChar(33)>>, <<RChar(62), RRef(<<cA>>)>>}, c \in S, vc \in BOOLEAN}
Flat == Marked(Lit) \cup Unary(Lit)
Nested == Unary(Cats(Small, Small) \cup Alts(Small, Small)) \cup Cats(Unary(Small), Small) \cup Cats(Small, Unary(Small)) \cup Cats(Alts(Small, Small), Small)
          \cup Cats(Small, Alts(Small, Small)) \cup Alts(Unary(Small), Small) \cup Blks({RChar(cA), RRef(<<cA>>)}, {RChar(cA)}) \cup Cats(Marked({RChar(cA)}), {REof}) \cup Alts(Marked({RChar(cA)}), {REof})
Deep == Blks(Unary({RChar(cA)}) \cup Cats(Small, Small) \cup Alts({RChar(cA)}, Small) \cup {RString(<<32, 62>>)}, {RChar(cA), RRange(33, 62)})
        \cup Unary(Nested) \cup Cats({q \in Nested : q.k # "cat"}, Small)
Universe == Flat \cup Nested \cup Cats(Lit, Lit) \cup Alts(Lit, {RChar(cA)}) \cup (IF Big THEN Deep ELSE {})

Spaces == {<<32>>, <<10>>, <<9, 12288>>, <<32, 47, 47, 32, 39, 41, 10>>}
Pieces == {<<39, cA, 39>>, <<34, 34>>, <<cA>>, <<40>>, <<41>>, <<91>>, <<93>>, <<123>>, <<125>>, <<60>>, <<62>>, <<124>>, <<32>>, <<94>>, <<33>>, <<126>>, <<45>>, <<42>>, <<49>>, <<44>>, <<92, 117, 48, 48, 54, 49>>, <<47, 47>>, <<10>>}

Init == \/ What = "rules" /\ r \in Universe /\ d = <<>> /\ sp = <<>>
        \/ What = "texts" /\ r = <<>> /\ d = <<>> /\ sp = <<>>
\* a rule is written; a text grows by a piece
Next == \/ What = "rules" /\ d = <<>> /\ sp' \in Spaces /\ d' = Write(r, sp') /\ UNCHANGED r
        \/ What = "texts" /\ Len(sp) < MaxPieces /\ \E p \in Pieces : d' = d \o p /\ sp' = Append(sp, 0) /\ UNCHANGED r
Spec == Init /\ [][Next]_nvars

\* what is written is read as what was meant
Read == What = "rules" /\ d # <<>> => LET p == ParseDef(d) IN p.ok /\ Same(p.r, r)
\* a text that is read is understood as a rule that can be written again
Reread == What = "texts" => LET p == ParseDef(d) IN p.ok => LET q == ParseDef(Write(p.r, <<32>>)) IN q.ok /\ Same(q.r, p.r)
\* spaces and comments around make no difference; what can't be read can't be read with them either
Around == What = "texts" => LET p == ParseDef(d)
                                q == ParseDef(<<32, 10>> \o d \o <<9>>)
                                c == ParseDef(<<47, 47, 10>> \o d)
                            IN p.ok = q.ok /\ (p.ok => p.r = q.r) /\ p.ok = c.ok /\ (p.ok => p.r = c.r)
\* in brackets it is the same rule in a group
InBrackets == What = "texts" => LET p == ParseDef(d)
                                    q == ParseDef(<<40>> \o d \o <<10, 41>>)
                                IN p.ok => q.ok /\ q.r = RGrp(p.r)
\* the rules referred to are those written
RefsRead == What = "rules" /\ d # <<>> => Refs(ParseDef(d).r) = Refs(r)
=============================================================================
