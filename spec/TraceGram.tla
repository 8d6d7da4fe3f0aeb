----------------------------- MODULE TraceGram -----------------------------
(***************************************************************************)
(* Checks recorded histories of grammars of the real library: rules added  *)
(* in any way, validated, looked up, listed, printed and used.  One line   *)
(* of the trace per history.  Facets:                                      *)
(*   define   - a definition (or grammar text) accepted or not             *)
(*   valid    - outcome of a validation                                    *)
(*   lookup   - rules found by name                                        *)
(*   list     - rules listed, with line, marks, root rules and users       *)
(*   roots    - root rules used by a parse                                 *)
(*   print    - the printed definition does not read back                  *)
(*   again    - printed rules behave differently                           *)
(*   meaning  - what a rule matches                                        *)
(*   cause    - where an error says the fault is                           *)
(***************************************************************************)
EXTENDS Parsing, Grammars, Tree, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, t,   \* line, call within it
          G       \* the grammar
tvars == <<l, t, G, pvars>>

Line == Trace[l]
Call == Line.calls[t]
O == Call.o
If(c, facet) == IF c THEN {facet} ELSE {}
Report(bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"MISMATCH", Line.id, t, bad>>)

TInit == l = 1 /\ t = 0 /\ G = EmptyGrammar /\ PIdle
SkipLine == l' = l + 1 /\ t' = 0
Goto == IF t >= Len(Line.calls) THEN SkipLine ELSE l' = l /\ t' = t + 1
On(op) == l <= Len(Trace) /\ t > 0 /\ pc = "idle" /\ Call.op = op

Begin == l <= Len(Trace) /\ t = 0 /\ pc = "idle" /\ G' = EmptyGrammar /\ Goto /\ UNCHANGED pvars

\* does an error say where the fault is
SaysWhere(wh) == O.ok \/ (O.wh.line = wh.line /\ O.wh.at = wh.at /\ O.wh.nm \in wh.nms)

\* what adding something comes to; nothing more can be said of a history judged differently
Adding(a, wh) ==
    /\ Report(If(O.ok # a.ok, "define") \cup If(~O.same, "lookup") \cup If(O.ok = a.ok /\ ~SaysWhere(wh), "cause"))
    /\ G' = a.G
    /\ IF O.ok # a.ok THEN SkipLine ELSE Goto
    /\ UNCHANGED pvars
Add == On("add") /\ LET s == SplitDef(Call.def)
                    IN Adding(AddText(G, Call.def), WrongAt(0, IF s.ok THEN DefinedAt(G, s.i) ELSE 0))
AddRule == On("rule") /\ Adding(AddDef(G, Call.nm, Call.def, G.last + 1), WrongAt(0, DefinedAt(G, Call.nm)))
\* a grammar text that is not accepted gives no grammar, the one there is stays
NewText == /\ l <= Len(Trace) /\ t > 0 /\ pc = "idle" /\ Call.op \in {"text", "file"}
           /\ LET x == FromText(Call.tx) IN Adding([ok |-> x.ok, G |-> IF x.ok THEN x.G ELSE G], x.wh)

Validate == On("validate") /\ LET v == ValidateG(G)
                              IN Report(If(O.ok # v.ok, "valid") \cup If(O.ok = v.ok /\ ~SaysWhere(v.wh), "cause")) /\ G' = v.G
            /\ Goto /\ UNCHANGED pvars

RuleOf(nm) == LET j == CHOOSE j \in 1..Len(G.defs) : G.defs[j].nm = nm IN G.defs[j]
\* the end of the text keeps its own name
NameOf(nm) == IF RuleOf(nm).r.k = "eof" THEN <<69, 79, 70>> ELSE nm
Get == /\ On("get")
       /\ LET there == Call.nm \in Names(G)
          IN Report(If(\/ O.ok # there
                       \/ ~O.same
                       \/ there /\ LET r == RuleOf(Call.nm).r
                                   IN O.nm # NameOf(Call.nm) \/ <<O.v, O.d, O.tk>> # <<r.v, r.d, r.o>>, "lookup"))
       /\ Goto /\ UNCHANGED <<G, pvars>>

\* a printed definition denotes the rule it was printed for
ReadsBack(df, r) == LET p == ParseDef(df) IN p.ok /\ Same(p.r, r)

SetOf(s) == {s[j] : j \in 1..Len(s)}
\* the same, whatever the order
RECURSIVE CountIn(_, _, _)
CountIn(s, x, j) == IF j > Len(s) THEN 0 ELSE (IF s[j] = x THEN 1 ELSE 0) + CountIn(s, x, j + 1)
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in SetOf(a) : CountIn(a, x, 1) = CountIn(b, x, 1)

List ==
    /\ On("list")
    /\ LET rs == O.rules
           good == /\ O.ok
                   /\ Len(rs) = Len(G.defs)
                   /\ SetOf(O.roots) = Roots(G) /\ Len(O.roots) = Cardinality(Roots(G))
                   /\ {O.users[j].nm : j \in 1..Len(O.users)} = Names(G) \cap Used(G)
                   /\ \A j \in 1..Len(O.users) : SameBag(O.users[j].us, Users(G, O.users[j].nm))
                   /\ \A j \in 1..Len(rs) : j > 1 => rs[j - 1].ln < rs[j].ln
           same == \A j \in 1..Len(rs) :
                      /\ rs[j].nm \in Names(G)
                      /\ LET d == RuleOf(rs[j].nm)
                         IN rs[j].ln = d.ln /\ rs[j].v = d.r.v /\ rs[j].t = (rs[j].nm \in G.terms)
           back == \A j \in 1..Len(rs) : ReadsBack(rs[j].df, RuleOf(rs[j].nm).r)
       IN Report(If(~(good /\ same), "list") \cup If(good /\ same /\ ~back, "print"))
    /\ Goto /\ UNCHANGED <<G, pvars>>

PrintIt ==
    /\ On("print")
    /\ LET there == Call.nm \in Names(G)
       IN Report(IF O.ok # there THEN {"lookup"}
                 ELSE If(there /\ ~(ReadsBack(O.tx, RuleOf(Call.nm).r) /\ O.ok2 /\ O.tx2 = O.tx), "print"))
    /\ Goto /\ UNCHANGED <<G, pvars>>

\* the leaves of an observed tree with their marks
RECURSIVE LeafList(_, _, _)
LeafList(k, m, acc) ==
    IF m > Len(k) THEN acc
    ELSE LeafList(k, m + 1, IF Len(k[m].k) = 0
                           THEN Append(acc, <<k[m].t, k[m].n, k[m].c, k[m].p, k[m].v, k[m].d, k[m].o>>)
                           ELSE LeafList(k[m].k, 1, acc))
Essence(o) == IF ~o.ok THEN <<FALSE>>
              ELSE IF "nds" \in DOMAIN o THEN LeafList(o.nds, 1, <<TRUE>>)
              ELSE LeafList(<<o.nd>>, 1, <<TRUE>>)
Used1(o) == IF "cr" \in DOMAIN o /\ o.ok THEN Len(o.cr) - Len(o.cu) ELSE 0
\* what was observed with the grammar and with the grammar of its printed rules
Again == /\ On("again")
         /\ Report(If(~Call.ok \/ Essence(O.a) # Essence(O.b) \/ Used1(O.a) # Used1(O.b), "again"))
         /\ Goto /\ UNCHANGED <<G, pvars>>

EvalIt ==
    /\ On("eval")
    /\ LET i == Call.off + 1
           x == EvalRule(Call.r, i, Call.fl, Ctx(RuleFun(G), Call.tx))
       IN Report(If(\/ O.ok # x.ok
                    \/ x.ok /\ (Len(O.cr) - Len(O.cu) # x.e - i \/ O.nd # x.nd), "meaning"))
    /\ Goto /\ UNCHANGED <<G, pvars>>

BeginParse == /\ On("parse") /\ StartParse(RuleFun(G), RootSeq(G), Call.tx) /\ UNCHANGED <<l, t, G>>
BeginSearch == /\ On("embed") /\ StartSearch(RuleFun(G), Call.r, Call.tx) /\ UNCHANGED <<l, t, G>>
Working == pc \in {"parse", "search"} /\ PStep /\ UNCHANGED <<l, t, G>>
ToIdle ==
    /\ pc' = "idle" /\ ctx' = [g |-> <<>>, tx |-> <<>>, ps |-> <<>>]
    /\ roots' = <<>> /\ at' = 1 /\ flag' = SKIPHINT /\ out' = <<>> /\ plain' = <<>>
EndOfParse ==
    /\ pc \in {"tree", "error"} /\ Call.op = "parse"
    /\ Report(If(\/ O.ok # (pc = "tree")
                 \/ ~O.ok /\ ~O.er
                 \/ O.ok /\ [j \in 1..Len(O.nds) |-> O.nds[j].n] # LET w == Simplify(out, Call.lv) IN [j \in 1..Len(w) |-> w[j].n], "roots"))
    /\ Goto /\ ToIdle /\ UNCHANGED G
EndOfSearch ==
    /\ pc \in {"tree", "error"} /\ Call.op = "embed"
    /\ Report(If(\/ O.ok # (pc = "tree")
                 \/ ~O.ok /\ ~O.er
                 \/ O.ok /\ O.nd # EmbedNode(Call.r, out), "meaning"))
    /\ Goto /\ ToIdle /\ UNCHANGED G

Done == /\ l > Len(Trace) /\ t = 0 /\ pc = "idle" /\ PrintT(<<"DONE", Len(Trace)>>)
        /\ l' = l + 1 /\ t' = -1 /\ UNCHANGED <<G, pvars>>

TNext == Begin \/ Add \/ AddRule \/ NewText \/ Validate \/ Get \/ List \/ PrintIt \/ Again \/ EvalIt
         \/ BeginParse \/ BeginSearch \/ Working \/ EndOfParse \/ EndOfSearch \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
