------------------------------ MODULE GenGram ------------------------------
(***************************************************************************)
(* Everything that can be done to a grammar with a few definitions: rules  *)
(* added, texts of rules loaded and validations, in every order.           *)
(*                                                                         *)
(* Checked here: a call that fails changes nothing, names are unique, what *)
(* a validation says does not depend on how the grammar was made, and a    *)
(* text is as good as its lines.                                           *)
(*                                                                         *)
(* With Emit every transition is printed together with a shortest way to   *)
(* it; those ways are then gone with the real library, asking for          *)
(* everything there is to know after each, and checked with TraceGram.     *)
(***************************************************************************)
EXTENDS Grammars, TLC, Json

CONSTANTS MaxOps, Big, Emit

VARIABLES G,    \* the grammar
          src,  \* the definitions added, as texts
          h     \* what was done
gvars == <<G, src, h>>

\* A = 'a'    A = B    A = 'x' [ A ]    B = 'b'    B = "b" C   C = A | B    C = { C   (not accepted)   1 = 'a'  (no name)
D(nm, t) == <<nm, 61>> \o t
cA == 97
Lit(c) == <<39, c, 39>>
Defs == <<D(65, Lit(cA)), D(65, <<66>>), D(66, Lit(98)), D(66, <<34, 98, 34, 32, 67>>), D(67, <<65, 124, 66>>), D(67, <<123, 67>>), D(65, Lit(120) \o <<91, 65, 93>>)>>
        \o (IF Big THEN <<D(66, <<66, 32>> \o Lit(cA)), D(49, Lit(cA)), D(67, Lit(99) \o <<40, 65, 65, 41>>), D(66, <<126, 65>>)>> ELSE <<>>)
RECURSIVE Join(_, _)
Join(ds, j) == IF j > Len(ds) THEN <<>> ELSE (IF j > 1 THEN <<10>> ELSE <<>>) \o ds[j] \o Join(ds, j + 1)
Texts == {<<>>, <<1>>, <<1, 3>>, <<4, 1>>, <<2, 3>>, <<5, 1, 3>>, <<1, 1>>, <<3, 6>>, <<7, 3>>}

Did(op) == /\ h' = Append(h, op)
           /\ IF Emit THEN PrintT("GEN " \o ToJson([ops |-> h'])) ELSE TRUE

Init == G = EmptyGrammar /\ src = <<>> /\ h = <<>>
Add == \E j \in 1..Len(Defs) :
          LET a == AddText(G, Defs[j])
          IN G' = a.G /\ src' = (IF a.ok THEN Append(src, Defs[j]) ELSE src) /\ Did([op |-> "add", def |-> Defs[j]])
Validate == G' = ValidateG(G).G /\ UNCHANGED src /\ Did([op |-> "validate"])
\* loading gives a grammar of its own: the only thing done to it first
Load == \E x \in Texts :
           LET ds == [j \in 1..Len(x) |-> Defs[x[j]]]
               g == FromText(Join(ds, 1))
           IN G' = (IF g.ok THEN g.G ELSE G) /\ src' = (IF g.ok THEN ds ELSE src) /\ Did([op |-> "text", tx |-> Join(ds, 1)])
Next == Len(h) < MaxOps /\ (Add \/ Validate \/ Load)
Spec == Init /\ [][Next]_gvars
View == <<G, Len(h)>>

Unique == \A i, j \in 1..Len(G.defs) : i # j => G.defs[i].nm # G.defs[j].nm
Lines == \A j \in 1..Len(G.defs) : G.defs[j].ln <= G.last /\ (j > 1 => G.defs[j - 1].ln < G.defs[j].ln)
Known == G.roots \subseteq Names(G) /\ G.terms \subseteq Names(G)
\* exactly the texts that were accepted, in order
IsThose == Len(src) = Len(G.defs) /\ \A j \in 1..Len(src) : LET s == SplitDef(src[j]) IN s.i = G.defs[j].nm /\ ParseDef(s.r).r = G.defs[j].r
\* loading the text of the definitions gives the same as adding and validating them
SameText == LET f == FromText(Join(src, 1))
                v == ValidateG(G)
            IN f.ok = v.ok /\ (f.ok => f.G.roots = v.G.roots /\ f.G.terms = v.G.terms
                                       /\ \A j \in 1..Len(src) : f.G.defs[j].nm = G.defs[j].nm /\ f.G.defs[j].r = G.defs[j].r)
\* adding them in the reverse order makes no difference to what there is
RECURSIVE AddAll(_, _)
AddAll(g, ds) == IF ds = <<>> THEN g ELSE AddAll(AddText(g, ds[Len(ds)]).G, SubSeq(ds, 1, Len(ds) - 1))
AnyOrder == LET g == AddAll(EmptyGrammar, src)
            IN /\ RuleFun(g) = RuleFun(G) /\ ValidateG(g).ok = ValidateG(G).ok
               /\ ValidateG(g).G.roots = (IF Complete(G) THEN Roots(G) ELSE {})
\* validation finds exactly the rules nobody uses; it says nothing else the second time
Valid == LET v == ValidateG(G)
         IN /\ v.ok => \A nm \in Names(G) : (nm \in v.G.roots) = (Users(G, nm) = <<>>)
            /\ ValidateG(v.G) = v
            /\ v.G.defs = G.defs
\* what fails changes nothing
Failed == [][src' = src => G'.defs = G.defs \/ h'[Len(h')].op = "text"]_gvars
=============================================================================
