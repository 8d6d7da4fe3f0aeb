------------------------------ MODULE MCErrors ------------------------------
(***************************************************************************)
(* What is to be true of the causes errors may give, for all rules and     *)
(* short texts of MCRules.                                                 *)
(***************************************************************************)
EXTENDS MCRules, Causes

Cs(i) == Causes(<<>>, r, i, Flag, C(tx, G0))
Failed == f # -1 /\ ~R0.ok

\* there is a cause for each failure
Explained == Failed => Cs(1) # {}

\* a place given is a place of the text, of which there is at least one char
PlaceIn == Failed => \A c \in Cs(1) : c[1] = "at" => \E j \in 1..Len(tx) : Positions(tx)[j] = <<c[3], c[4]>>

\* an excluded text is in the text
ExcludedIn == Failed => \A c \in Cs(1) : c[1] = "excluded" => \E i \in 1..Len(tx) : OccursAt(tx, i, c[2])

\* only a rule that is not there is undefined
UndefinedIn == Failed => \A c \in Cs(1) : c[1] = "undefined" => c[2] \notin DOMAIN G0 /\ c[2] \in RefSet(r)

\* what is before a place makes no difference but for the places given
Moved(c, n) == IF c[1] = "at" THEN <<"at", c[2], 1, c[4] + n>> ELSE c      \* texts of one line
LocalCauses == Failed => \A pre \in {<<cA>>, <<cB, 32>>} :
                  Causes(<<>>, r, Len(pre) + 1, Flag, C(pre \o tx, G0)) = {Moved(c, Len(pre)) : c \in Cs(1)}

\* the end is given as the place only if going on could make the rule match or fail otherwise:
\* the text up to it is not at fault by itself
EndOnly == (Failed /\ (\A c \in Cs(1) : c[1] = "eof") /\ Len(tx) > 0 /\ r.k \in {"char", "chars", "string", "range"}) => \A j \in 1..Len(tx) : IsWS(tx[j])

\* where no whitespace is skipped and there is nothing but one literal the place is the start
LeafAtStart == (Failed /\ r.k \in {"char", "chars", "string", "range"} /\ f = NOSKIP)
                  => Cs(1) = {IF tx = <<>> THEN <<"eof", Called(<<>>, r)>> ELSE <<"at", Called(<<>>, r), 1, 1>>}

\* the causes of a group are those of what is in it
GroupSame == Failed => Causes(<<>>, RGrp(r), 1, Flag, C(tx, G0)) = Cs(1)
\* a choice gives causes of its alternatives only
ChoiceOf == Failed => Causes(<<>>, RAlt(<<<<r>>, <<REof>>>>), 1, Flag, C(tx, G0)) \in {Cs(1) \cup {<<"more">>}, Cs(1)}
\* a sequence that fails with its first member gives the causes of that one, whatever follows
FirstOf == Failed => Causes(<<>>, RCat(<<r, REof>>), 1, Flag, C(tx, G0)) = Cs(1)
=============================================================================
