----------------------------- MODULE TraceEval -----------------------------
(***************************************************************************)
(* Checks recorded evaluations, parses and searches of the real library    *)
(* against the specification.  The trace has one line per grammar: its     *)
(* definitions and the calls made with it, in order, each with what was    *)
(* observed.  Definitions are read by the specification itself.            *)
(*                                                                         *)
(* Each difference between an observation and the behaviour specified is   *)
(* reported with the facet it concerns, and checking goes on:              *)
(*   match   - does it match / is there a tree;  error - error reported    *)
(*   used    - chars used;        sticky - stickiness                      *)
(*   read    - accounting of the chars read and not used                   *)
(*   tree    - kinds, names, chars and nesting of the nodes                *)
(*   pos     - positions of nodes;  mark - annotations of nodes            *)
(*   nodest  - stickiness of nodes                                         *)
(*   define  - a definition accepted that should not be or vice versa      *)
(*   cause   - causes an error gives                                       *)
(***************************************************************************)
EXTENDS Parsing, Causes, Grammars, Tree, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,   \* line of the trace
          t,   \* call within the line, 0: the grammar is still to be read
          G,   \* the grammar
          w    \* walk: index in the text where the stream is

tvars == <<l, t, G, w, pvars>>

TInit == l = 1 /\ t = 0 /\ G = EmptyGrammar /\ w = 1 /\ PIdle

Line == Trace[l]
Call == Line.calls[t]

Report(bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"MISMATCH", Line.id, t, bad>>)
If(c, facet) == IF c THEN {facet} ELSE {}

------------------------------------------------------------------------------
RECURSIVE ReadDefs(_, _, _, _)
ReadDefs(ds, oks, j, g) ==   \* bad: was a definition judged differently
    IF j > Len(ds) THEN [G |-> g, bad |-> FALSE]
    ELSE LET a == AddText(g, ds[j])
         IN IF a.ok # oks[j] THEN [G |-> g, bad |-> TRUE] ELSE ReadDefs(ds, oks, j + 1, a.G)

\* only the skeleton of a tree / its positions / marks
RECURSIVE Skel(_), Poss(_), Marks(_), Sticks(_)
Skel(nd)  == [t |-> nd.t, n |-> nd.n, c |-> nd.c, k |-> [j \in 1..Len(nd.k) |-> Skel(nd.k[j])]]
Poss(nd)  == <<nd.p, [j \in 1..Len(nd.k) |-> Poss(nd.k[j])]>>
Marks(nd) == <<nd.o, nd.v, nd.d, [j \in 1..Len(nd.k) |-> Marks(nd.k[j])]>>
Sticks(nd) == <<nd.s, [j \in 1..Len(nd.k) |-> Sticks(nd.k[j])]>>

\* facets in which node a observed differs from node b specified
Differ(a, b) ==
    IF a = b THEN {}
    ELSE IF Skel(a) # Skel(b) THEN {"tree"}
    ELSE If(Poss(a) # Poss(b), "pos") \cup If(Marks(a) # Marks(b), "mark") \cup If(Sticks(a) # Sticks(b), "nodest")
RECURSIVE DifferAll(_, _, _)
DifferAll(as, bs, j) == IF Len(as) # Len(bs) THEN {"tree"}
                        ELSE IF j > Len(as) THEN {} ELSE Differ(as[j], bs[j]) \cup DifferAll(as, bs, j + 1)

\* accounting of an evaluation x that started at index i of text tx:
\* read and unused chars and the cursor of the stream afterwards
Accounted(o, x, i, tx) ==
    LET used == IF x.ok THEN x.e - i ELSE 0
    IN /\ i - 1 + Len(o.cr) <= Len(tx)
       /\ o.cr = SubSeq(tx, i, i - 1 + Len(o.cr))
       /\ Len(o.cu) <= Len(o.cr)
       /\ o.cu = SubSeq(o.cr, Len(o.cr) - Len(o.cu) + 1, Len(o.cr))
       /\ o.cur = i - 1 + Len(o.cr)
       /\ (~o.ok => o.cu = o.cr)

\* cs: what an error may give as causes
Judge(o, x, i, tx, cs) ==
    IF o.ok # x.ok THEN {"match"}
    ELSE If(~Accounted(o, x, i, tx), "read")
         \cup If(~o.ok /\ ~o.er, "error")
         \cup If(~o.ok /\ "ca" \in DOMAIN o /\ ~Explains(o.ca, cs), "cause")
         \cup If(o.st # x.st, "sticky")
         \cup IF x.ok THEN If(Len(o.cr) - Len(o.cu) # x.e - i, "used") \cup Differ(o.nd, x.nd) ELSE {}

------------------------------------------------------------------------------
ReadGrammar ==
    /\ l <= Len(Trace) /\ t = 0 /\ pc = "idle"
    /\ LET rd == ReadDefs(Line.defs, Line.oks, 1, EmptyGrammar)
           va == ValidateG(rd.G)
           bad == rd.bad \/ va.ok # Line.valid
       IN /\ IF bad THEN PrintT(<<"MISMATCH", Line.id, 0, {"define"}>>) ELSE TRUE
          /\ IF bad \/ Len(Line.calls) = 0
             THEN l' = l + 1 /\ t' = 0 /\ G' = EmptyGrammar /\ w' = 1 /\ UNCHANGED pvars
             ELSE /\ l' = l /\ t' = 1 /\ G' = va.G /\ w' = 1
                  /\ UNCHANGED <<pc, roots, at, flag, out, plain>>
                  /\ ctx' = [g |-> RuleFun(va.G), tx |-> <<>>, ps |-> <<>>]

\* go on to the next call; the walk goes on at index i
Advance(i) ==
    IF t = Len(Line.calls)
    THEN l' = l + 1 /\ t' = 0 /\ G' = EmptyGrammar /\ w' = 1
    ELSE l' = l /\ t' = t + 1 /\ G' = G /\ w' = i

EvalCall ==
    /\ l <= Len(Trace) /\ t > 0 /\ pc = "idle" /\ Call.op = "eval"
    /\ LET c == Ctx(ctx.g, Call.tx)
           i == Call.off + 1
           x == EvalRule(Call.r, i, Call.fl, c)
       IN Report(Judge(Call.o, x, i, Call.tx, CausesOfRule(Call.r, i, Call.fl, c)))
    /\ Advance(1) /\ UNCHANGED pvars

\* one evaluation of several over the same stream, which goes on after what was used
WalkCall ==
    /\ l <= Len(Trace) /\ t > 0 /\ pc = "idle" /\ Call.op = "walk"
    /\ LET i == IF Call.first THEN 1 ELSE w
           c == Ctx(ctx.g, Call.tx)
           x == EvalRule(Call.r, i, Call.fl, c)
       IN Report(Judge(Call.o, x, i, Call.tx, CausesOfRule(Call.r, i, Call.fl, c))) /\ Advance(IF x.ok THEN x.e ELSE i)
    /\ UNCHANGED pvars

StartParseCall ==
    /\ l <= Len(Trace) /\ t > 0 /\ pc = "idle" /\ Call.op = "parse"
    /\ StartParse(ctx.g, RootSeq(G), Call.tx)
    /\ UNCHANGED <<l, t, G, w>>
StartSearchCall ==
    /\ l <= Len(Trace) /\ t > 0 /\ pc = "idle" /\ Call.op = "embed"
    /\ StartSearch(ctx.g, Call.r, Call.tx)
    /\ UNCHANGED <<l, t, G, w>>

Working == pc \in {"parse", "search"} /\ PStep /\ UNCHANGED <<l, t, G, w>>

ToIdle == /\ pc' = "idle" /\ ctx' = [ctx EXCEPT !.tx = <<>>, !.ps = <<>>]
          /\ roots' = <<>> /\ at' = 1 /\ flag' = SKIPHINT /\ out' = <<>> /\ plain' = <<>>

EndParseCall ==
    /\ pc \in {"tree", "error"} /\ Call.op = "parse"
    /\ LET o == Call.o
       IN Report(IF o.ok # (pc = "tree") THEN {"match"}
                 ELSE If(o.ok = o.er, "error")
                      \cup If(~o.ok /\ "ca" \in DOMAIN o /\ ~Explains(o.ca, ParseCauses(roots, at, flag, ctx)), "cause")
                      \cup (IF o.ok THEN DifferAll(o.nds, Simplify(out, Call.lv), 1) ELSE {}))
    /\ Advance(1) /\ ToIdle
EndSearchCall ==
    /\ pc \in {"tree", "error"} /\ Call.op = "embed"
    /\ LET o == Call.o
       IN Report(IF o.ok # (pc = "tree") THEN {"match"}
                 ELSE If(~o.ok /\ ~o.er, "error")
                      \cup If(~o.ok /\ "ca" \in DOMAIN o /\ ~Explains(o.ca, {<<"undefined", Call.r>>}), "cause")
                      \cup (IF o.ok THEN Differ(o.nd, EmbedNode(Call.r, out)) ELSE {}))
    /\ Advance(1) /\ ToIdle

Done == /\ l > Len(Trace) /\ t = 0 /\ pc = "idle"
        /\ PrintT(<<"DONE", Len(Trace)>>)
        /\ l' = l + 1 /\ t' = -1
        /\ UNCHANGED <<G, w, pvars>>

TNext == ReadGrammar \/ EvalCall \/ WalkCall \/ StartParseCall \/ StartSearchCall \/ Working
         \/ EndParseCall \/ EndSearchCall \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
