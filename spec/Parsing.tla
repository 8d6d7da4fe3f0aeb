------------------------------ MODULE Parsing ------------------------------
(***************************************************************************)
(* Parsing of a whole text and searching in a text, as transition systems: *)
(* each step matches one root rule, resp. finds one match or passes over   *)
(* one char.                                                               *)
(*                                                                         *)
(* pc: "idle" nothing started; "parse", "search" in progress;              *)
(*     "tree" ended with a tree, "error" ended without one.                *)
(***************************************************************************)
EXTENDS Rules

VARIABLES
    pc,     \* see above
    ctx,    \* grammar and text, see Rules
    roots,  \* parse: names of the root rules;  search: <<name of the rule>>
    at,     \* index of the next char
    flag,   \* parse: whitespace flag for the next root
    out,    \* nodes so far
    plain   \* search: chars not in a match since the last match

pvars == <<pc, ctx, roots, at, flag, out, plain>>

PIdle == /\ pc = "idle" /\ ctx = [g |-> <<>>, tx |-> <<>>, ps |-> <<>>] /\ roots = <<>>
         /\ at = 1 /\ flag = SKIPHINT /\ out = <<>> /\ plain = <<>>

Ctx(g, tx) == [g |-> g, tx |-> tx, ps |-> Positions(tx)]

StartParse(g, rts, tx) ==
    /\ pc' = IF Len(tx) = 0 THEN "error" ELSE "parse"
    /\ ctx' = Ctx(g, tx) /\ roots' = rts
    /\ at' = 1 /\ flag' = SKIPHINT /\ out' = <<>> /\ plain' = <<>>

\* the longest match among the root rules at i: num of them, e, nd, st
RECURSIVE BestRoot(_, _, _, _, _, _)
BestRoot(rts, m, i, f, c, best) ==
    IF m > Len(rts) THEN best
    ELSE LET x == EvalRule(rts[m], i, f, c)
         IN BestRoot(rts, m + 1, i, f, c,
                     IF ~x.ok THEN best
                     ELSE IF best.num = 0 \/ x.e > best.e
                          THEN [num |-> 1, e |-> x.e, nd |-> x.nd, st |-> x.st]
                     ELSE IF x.e = best.e THEN [best EXCEPT !.num = best.num + 1]
                     ELSE best)
NoRoot == [num |-> 0, e |-> 0, nd |-> <<>>, st |-> TRUE]

\* one root rule matches (or none, two equally long or an empty one: error)
MatchRoot ==
    /\ pc = "parse" /\ at <= Len(ctx.tx)
    /\ LET b == BestRoot(roots, 1, at, flag, ctx, NoRoot)
       IN IF b.num = 1 /\ b.e > at
          THEN /\ at' = b.e /\ flag' = NextFlag(b.st) /\ out' = Append(out, b.nd)
               /\ UNCHANGED <<pc, ctx, roots, plain>>
          ELSE /\ pc' = "error" /\ out' = <<>>
               /\ UNCHANGED <<ctx, roots, at, flag, plain>>

EndParse ==
    /\ pc = "parse" /\ at > Len(ctx.tx)
    /\ pc' = "tree"
    /\ UNCHANGED <<ctx, roots, at, flag, out, plain>>

StartSearch(g, nm, tx) ==
    /\ pc' = IF nm \in DOMAIN g THEN "search" ELSE "error"
    /\ ctx' = Ctx(g, tx) /\ roots' = <<nm>>
    /\ at' = 1 /\ flag' = NOSKIP /\ out' = <<>> /\ plain' = <<>>

TextNode(w) == Node("text", <<95>>, Unmarked, w, <<>>, NoPos, FALSE)
WithPlain(nds, w) == IF Len(w) = 0 THEN nds ELSE Append(nds, TextNode(w))

Found(x) == x.ok /\ x.e > at
FindMatch ==
    /\ pc = "search"
    /\ LET x == EvalRule(roots[1], at, NOSKIP, ctx)
       IN /\ Found(x)
          /\ out' = Append(WithPlain(out, plain), x.nd) /\ plain' = <<>> /\ at' = x.e
    /\ UNCHANGED <<pc, ctx, roots, flag>>
PassChar ==
    /\ pc = "search" /\ at <= Len(ctx.tx)
    /\ ~Found(EvalRule(roots[1], at, NOSKIP, ctx))
    /\ plain' = Append(plain, ctx.tx[at]) /\ at' = at + 1
    /\ UNCHANGED <<pc, ctx, roots, flag, out>>
EndSearch ==
    /\ pc = "search" /\ at > Len(ctx.tx)
    /\ pc' = "tree" /\ out' = WithPlain(out, plain) /\ plain' = <<>>
    /\ UNCHANGED <<ctx, roots, at, flag>>

PStep == MatchRoot \/ EndParse \/ FindMatch \/ PassChar \/ EndSearch

\* the node standing for a search
EmbedNode(nm, kids) == Node("embed", nm, Unmarked, <<>>, kids, NoPos, FALSE)
=============================================================================
