----------------------------- MODULE MCCommand -----------------------------
(***************************************************************************)
(* What is to be true of the command for all short lists of arguments: it  *)
(* always ends, goes through its stages in order, prints one section per   *)
(* text and then file up to the first error, and the order in which        *)
(* arguments of different kinds are given makes no difference.             *)
(***************************************************************************)
EXTENDS Command, FiniteSets, TLC, Json

CONSTANTS MaxArgs, Emit    \* Emit: print every list of arguments, to be given to the real command

VARIABLES args, fs, began
mvars == <<args, fs, began, cvars>>

cA == 97
Lit(c) == <<39, c, 39>>
RuleA == <<65, 61>> \o Lit(cA)             \* A='a'
RuleU == <<65, 61, 66>>                    \* A=B
RuleB == <<66, 61, 34, 98, 34>>            \* B="b"
BadRule == <<65, 61, 39>>
Arg(f0, v0) == [f |-> f0, v |-> v0]
Args == {Arg("rule", RuleA), Arg("rule", RuleU), Arg("rule", RuleB), Arg("rule", BadRule), Arg("xbnf", <<103>>), Arg("xbnf", <<110>>), Arg("text", <<cA>>), Arg("text", <<98>>),
         Arg("file", <<105>>), Arg("file", <<110>>), Arg("type", <<1>>), Arg("stray", <<120>>), Arg("help", <<>>)}
Files == [g : {RuleA, RuleB, BadRule}, i : {<<cA>>, <<98, 98>>}]
FilesOf(x) == <<[p |-> <<103>>, ok |-> TRUE, tx |-> x.g], [p |-> <<105>>, ok |-> TRUE, tx |-> x.i]>>

Init == CIdle /\ args = <<>> /\ fs \in {FilesOf(x) : x \in Files} /\ began = FALSE
\* the arguments are written one by one, then the command runs
Argue == ~began /\ Len(args) < MaxArgs /\ \E a \in Args : args' = Append(args, a) /\ UNCHANGED <<fs, began, cvars>>
Run1 == ~began /\ (IF Emit THEN PrintT("GEN " \o ToJson([args |-> args, fs |-> fs])) ELSE TRUE) /\ Start(args, fs) /\ began' = TRUE /\ UNCHANGED <<args, fs>>
Step1 == began /\ CStep(fs) /\ UNCHANGED <<args, fs, began>>
Next == Argue \/ Run1 \/ Step1
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Run1) /\ WF_mvars(Step1)

Ends == <>Ended
Seen == Flags(args, 1, <<>>)
Wanted == Tag(ValuesOf(Seen, "text"), "text") \o Tag(ValuesOf(Seen, "file"), "file")

\* what was announced is the start of what was asked for, errors only last
InOrder == /\ Len(shown) <= Len(Wanted)
           /\ \A j \in 1..Len(shown) : shown[j].k = Wanted[j].k /\ shown[j].v = Wanted[j].v /\ (j < Len(shown) => shown[j].ok)
Stages == /\ stage = "done" => Len(shown) = Len(Wanted) /\ \A j \in 1..Len(shown) : shown[j].ok
          /\ stage = "error" => shown = <<>> \/ ~shown[Len(shown)].ok
          /\ stage = "usage" => shown = <<>>
          /\ Len(shown) > 0 => began
\* no rules, no trees
NoRules == ValuesOf(Seen, "rule") = <<>> /\ ValuesOf(Seen, "xbnf") = <<>> => stage \in {"start", "usage"}
\* exactly the rules given are in the grammar
Given == stage \notin {"start", "usage", "error"} =>
            LET inFile == LET p == Last1(ValuesOf(Seen, "xbnf")) IN IF p = <<>> THEN <<>> ELSE <<FileAt(fs, p).tx>>
                all == inFile \o ValuesOf(Seen, "rule")
            IN Len(G.defs) = Len(all) /\ \A j \in 1..Len(all) : SplitDef(all[j]).i = G.defs[j].nm
\* whether nodes have their kind shown changes nothing else, nor does the order of different kinds of arguments
Kinds == <<"xbnf", "rule", "text", "file", "type">>
Sorted == LET of(k) == SelectSeq(Seen, LAMBDA a : a.f = k)
          IN of("xbnf") \o of("rule") \o of("text") \o of("file") \o of("type")
Order == began /\ stage = "ready" /\ shown = <<>> /\ todo = Wanted =>
            /\ ValuesOf(Sorted, "rule") = ValuesOf(Seen, "rule")
            /\ ValidateG(Loaded(Sorted, fs).G).G = G
            /\ Tag(ValuesOf(Sorted, "text"), "text") \o Tag(ValuesOf(Sorted, "file"), "file") = todo
\* a text parsed alone has the tree it has among others
Alone == stage \in {"done", "error"} /\ Len(shown) > 1 =>
            \A j, m \in 1..Len(shown) : shown[j].k = shown[m].k /\ shown[j].v = shown[m].v => shown[j] = shown[m]
\* an empty tree is never shown
Trees == \A j \in 1..Len(shown) : shown[j].ok => G.roots # {} /\ Len(shown[j].tx) > 0
=============================================================================
