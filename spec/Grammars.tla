------------------------------ MODULE Grammars ------------------------------
(***************************************************************************)
(* A grammar and how it is built: rules are added one by one, and          *)
(* validated.                                                              *)
(*                                                                         *)
(* defs: sequence of records nm, r, ln (line) in the order of definition;  *)
(* last: the last line used;  valid: names of roots and terminals found by *)
(* the last successful validation.                                         *)
(***************************************************************************)
EXTENDS Notation

EmptyGrammar == [defs |-> <<>>, last |-> 0, roots |-> {}, terms |-> {}]

Names(G) == {G.defs[j].nm : j \in 1..Len(G.defs)}
\* the rules by name
RuleFun(G) == [nm \in Names(G) |-> LET j == CHOOSE j \in 1..Len(G.defs) : G.defs[j].nm = nm IN G.defs[j].r]

\* adding a rule: ok and the grammar afterwards (unchanged if not ok)
AddDef(G, nm, def, ln) ==
    IF ~ValidName(nm) \/ nm \in Names(G) THEN [ok |-> FALSE, G |-> G]
    ELSE LET p == ParseDef(def)
         IN IF ~p.ok THEN [ok |-> FALSE, G |-> G]
            ELSE [ok |-> TRUE, G |-> [G EXCEPT !.defs = Append(G.defs, [nm |-> nm, r |-> p.r, ln |-> ln]),
                                               !.last = ln]]

AddText(G, d) ==   \* "name = definition"
    LET s == SplitDef(d)
    IN IF ~s.ok THEN [ok |-> FALSE, G |-> G] ELSE AddDef(G, s.i, s.r, G.last + 1)

\* names referred to by some rule
RECURSIVE UsedBy(_, _, _)
UsedBy(defs, j, acc) == IF j > Len(defs) THEN acc ELSE UsedBy(defs, j + 1, acc \cup RefSet(defs[j].r))
Used(G) == UsedBy(G.defs, 1, {})

Complete(G) == Used(G) \subseteq Names(G)
Roots(G) == Names(G) \ Used(G)
Terminals(G) == {G.defs[j].nm : j \in {j \in 1..Len(G.defs) : Refs(G.defs[j].r) = <<>>}}

\* names of the rules using nm, once per use, in the order of definition
RECURSIVE UsersOf(_, _, _, _)
Times(r, nm) == LET s == Refs(r) IN SelectSeq(s, LAMBDA x : x = nm)
UsersOf(defs, j, nm, acc) ==
    IF j > Len(defs) THEN acc
    ELSE UsersOf(defs, j + 1, nm, acc \o [x \in 1..Len(Times(defs[j].r, nm)) |-> defs[j].nm])
Users(G, nm) == UsersOf(G.defs, 1, nm, <<>>)

(* Where an error says the fault is: line, the wrong line of a text; at,   *)
(* the line where a name is defined already; nms, the names missing, one   *)
(* of which it gives.                                                      *)
Nowhere == [line |-> 0, at |-> 0, nms |-> {<<>>}]
WrongAt(line, defined) == [Nowhere EXCEPT !.line = line, !.at = defined]
\* the line where a name is defined, 0 if it is not
DefinedAt(G, nm) == IF nm \in Names(G) THEN G.defs[CHOOSE j \in 1..Len(G.defs) : G.defs[j].nm = nm].ln ELSE 0

ValidateG(G) ==
    IF Complete(G) THEN [ok |-> TRUE, G |-> [G EXCEPT !.roots = Roots(G), !.terms = Terminals(G)], wh |-> Nowhere]
    ELSE [ok |-> FALSE, G |-> G, wh |-> [Nowhere EXCEPT !.nms = Used(G) \ Names(G)]]

\* a grammar from a text with a rule per line
RECURSIVE FromLines(_, _, _)
FromLines(ls, j, G) ==
    IF j > Len(ls) THEN ValidateG(G)
    ELSE LET d == Trim(ls[j])
         IN IF d = <<>> \/ (At(d, 1) = 47 /\ At(d, 2) = 47) THEN FromLines(ls, j + 1, [G EXCEPT !.last = j])
            ELSE LET s == SplitDef(d)
                 IN IF ~s.ok THEN [ok |-> FALSE, G |-> EmptyGrammar, wh |-> WrongAt(j, 0)]
                    ELSE LET a == AddDef(G, s.i, s.r, j)
                         IN IF a.ok THEN FromLines(ls, j + 1, a.G)
                            ELSE [ok |-> FALSE, G |-> EmptyGrammar, wh |-> WrongAt(j, DefinedAt(G, s.i))]
FromText(d) == LET x == FromLines(Split(d, 10), 1, EmptyGrammar)
               IN IF x.ok THEN x ELSE [x EXCEPT !.G = EmptyGrammar]
\* only one way of writing a set of names as a sequence matters: the order of definition
RootSeq(G) == SelectSeq([j \in 1..Len(G.defs) |-> G.defs[j].nm], LAMBDA nm : nm \in G.roots)
=============================================================================
