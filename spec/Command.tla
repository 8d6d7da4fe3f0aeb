------------------------------ MODULE Command ------------------------------
(***************************************************************************)
(* The command: what it reads of its arguments, the grammar it makes of    *)
(* them and, text by text, the tree or error it prints.                    *)
(*                                                                         *)
(* An argument is a record: f, the flag ("xbnf", "rule", "text", "file",   *)
(* "type", "help", "unknown", "missing" for a flag without its value,      *)
(* "stray" for anything that is no flag) and v, its value.  fs: the files, *)
(* a sequence of records p (path), ok (can be read), tx (content).         *)
(***************************************************************************)
EXTENDS Parsing, Grammars, Dump

VARIABLES stage,  \* "start", "ready" a grammar is there and texts are awaited, "parse" one is being parsed,
                  \* "usage", "error" ended with an error, "done"
          G,      \* the grammar
          todo,   \* what is left to do: records k ("text", "file"), v (argument)
          type,   \* show kinds of nodes
          shown   \* what was printed: records k, v, ok, tx (the dump, <<>> for an error)
cvars == <<stage, G, todo, type, shown, pvars>>

\* arguments up to the first that is no flag
RECURSIVE Flags(_, _, _)
Flags(as, j, acc) == IF j > Len(as) \/ as[j].f = "stray" THEN acc ELSE Flags(as, j + 1, Append(acc, as[j]))
ValuesOf(as, f) == LET s == SelectSeq(as, LAMBDA a : a.f = f) IN [j \in 1..Len(s) |-> s[j].v]
Last1(s) == IF Len(s) = 0 THEN <<>> ELSE s[Len(s)]

FileAt(fs, p) == LET m == {j \in 1..Len(fs) : fs[j].p = p}
                 IN IF m = {} THEN [ok |-> FALSE, tx |-> <<>>] ELSE fs[CHOOSE j \in m : TRUE]

RECURSIVE AddRules(_, _, _)
AddRules(g, rs, j) ==
    IF j > Len(rs) THEN [ok |-> TRUE, G |-> g]
    ELSE LET a == AddText(g, rs[j]) IN IF a.ok THEN AddRules(a.G, rs, j + 1) ELSE [ok |-> FALSE, G |-> g]

\* the grammar the arguments stand for
Loaded(as, fs) ==
    LET path == Last1(ValuesOf(as, "xbnf"))
        f == FileAt(fs, path)
        base == IF path = <<>> THEN [ok |-> TRUE, G |-> EmptyGrammar]
                ELSE IF ~f.ok THEN [ok |-> FALSE, G |-> EmptyGrammar]
                ELSE FromText(f.tx)
    IN IF base.ok THEN AddRules(base.G, ValuesOf(as, "rule"), 1) ELSE base

Tag(s, k) == [j \in 1..Len(s) |-> [k |-> k, v |-> s[j]]]

CIdle == stage = "start" /\ G = EmptyGrammar /\ todo = <<>> /\ type = FALSE /\ shown = <<>> /\ PIdle

\* the arguments are read, the grammar is made; a grammar that refers to undefined rules is used as it is
Start(args, fs) ==
    LET as == Flags(args, 1, <<>>)
        unusable == \E j \in 1..Len(as) : as[j].f \in {"help", "unknown", "missing"}
        none == Last1(ValuesOf(as, "xbnf")) = <<>> /\ ValuesOf(as, "rule") = <<>>
        ld == Loaded(as, fs)
        types == ValuesOf(as, "type")
    IN /\ stage = "start"
       /\ stage' = IF unusable \/ none \/ Len(args) = 0 THEN "usage" ELSE IF ~ld.ok THEN "error" ELSE "ready"
       /\ G' = IF stage' = "ready" THEN ValidateG(ld.G).G ELSE EmptyGrammar
       /\ todo' = IF stage' = "ready" THEN Tag(ValuesOf(as, "text"), "text") \o Tag(ValuesOf(as, "file"), "file") ELSE <<>>
       /\ type' = (Len(types) > 0 /\ Last1(types) = <<1>>)
       /\ shown' = <<>>
       /\ UNCHANGED pvars

Section(ok, tx) == [k |-> todo[1].k, v |-> todo[1].v, ok |-> ok, tx |-> tx]

\* the next text is taken; one that can't be read ends it
Take(fs) ==
    /\ stage = "ready" /\ Len(todo) > 0
    /\ LET f == FileAt(fs, todo[1].v)
           ok == todo[1].k = "text" \/ f.ok
       IN IF ok
          THEN /\ StartParse(RuleFun(G), RootSeq(G), IF todo[1].k = "text" THEN todo[1].v ELSE f.tx)
               /\ stage' = "parse" /\ UNCHANGED <<G, todo, type, shown>>
          ELSE /\ shown' = Append(shown, Section(FALSE, <<>>)) /\ stage' = "error" /\ todo' = <<>>
               /\ UNCHANGED <<G, type, pvars>>

Work == stage = "parse" /\ PStep /\ UNCHANGED <<stage, G, todo, type, shown>>

\* the tree as it is shown
Reduced(nds, k) ==
    Passes(Simplify(nds, 0), IF k = "file" THEN <<"virtual", "merge", "nondata", "redundant">>
                             ELSE <<"virtual", "nondata", "redundant">>, 1)
Show ==
    /\ stage = "parse" /\ pc \in {"tree", "error"}
    /\ shown' = Append(shown, Section(pc = "tree", IF pc = "tree" THEN DumpTree(Reduced(out, todo[1].k), [type |-> type, text |-> FALSE])
                                                   ELSE <<>>))
    /\ stage' = IF pc = "tree" THEN "ready" ELSE "error"
    /\ todo' = IF pc = "tree" THEN Tail(todo) ELSE <<>>
    /\ pc' = "idle" /\ ctx' = [g |-> <<>>, tx |-> <<>>, ps |-> <<>>]
    /\ roots' = <<>> /\ at' = 1 /\ flag' = SKIPHINT /\ out' = <<>> /\ plain' = <<>>
    /\ UNCHANGED <<G, type>>

Finish1 == stage = "ready" /\ todo = <<>> /\ stage' = "done" /\ UNCHANGED <<G, todo, type, shown, pvars>>

CStep(fs) == Take(fs) \/ Work \/ Show \/ Finish1
Ended == stage \in {"usage", "error", "done"}
=============================================================================
