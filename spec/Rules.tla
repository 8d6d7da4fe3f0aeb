------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* What it means for a rule to match at a place of a text, and the tree    *)
(* that stands for the match.                                              *)
(*                                                                         *)
(* ctx is a record: g, the rules by name (a function from names to rules); *)
(* tx, the text; ps, the position of each of its chars.                    *)
(* Eval(nm, r, i, f, ctx) evaluates rule r, which has the name nm (<<>> if *)
(* anonymous), at index i with the whitespace flag f and is a record:      *)
(*   ok - does it match;  e - index after the match;  st - is it sticky;   *)
(*   nd - the node of the match.                                           *)
(*                                                                         *)
(* A node is a record: t, kind; n, name of the rule; c, chars; k,          *)
(* children; p, position; s sticky; v virtual; d non-data; o token.        *)
(***************************************************************************)
EXTENDS Notation

NOSKIPHINT == 0  \* suggest not to skip leading whitespace
SKIPHINT   == 1  \* suggest to skip leading whitespace
NOSKIP     == 3  \* do not skip leading whitespace

Match(e, st, nd) == [ok |-> TRUE, e |-> e, st |-> st, nd |-> nd]
Fail(st) == [ok |-> FALSE, e |-> 0, st |-> st]

Node(t, nm, r, c, k, p, st) ==
    [t |-> t, n |-> nm, c |-> c, k |-> k, p |-> p, s |-> st, v |-> r.v, d |-> r.d, o |-> r.o]

\* the flag for what follows something of the given stickiness
NextFlag(st) == IF st THEN NOSKIPHINT ELSE SKIPHINT

RECURSIVE FirstIn(_, _, _, _, _)
\* first index in i..j of a char between a and b, 0 if none
FirstIn(d, i, j, a, b) == IF i > j THEN 0
                          ELSE IF d[i] >= a /\ d[i] <= b THEN i
                          ELSE FirstIn(d, i + 1, j, a, b)

------------------------------------------------------------------------------
(* Literals                                                                *)

\* a single char; the whitespace skipped may itself hold the char
EvalChar(nm, r, i, f, ctx) ==
    LET c == r.tx[1]
        Leaf(j) == Match(j + 1, TRUE, Node("char", nm, r, <<c>>, <<>>, PosAt(ctx.ps, j), TRUE))
        j0 == IF f = SKIPHINT THEN SkipWs(ctx.tx, i) ELSE i
    IN IF i > Len(ctx.tx) THEN Fail(TRUE)
       ELSE IF IsWS(c) /\ j0 > i
            THEN LET w == FirstIn(ctx.tx, i, j0 - 1, c, c) IN IF w > 0 THEN Leaf(w) ELSE Fail(TRUE)
       ELSE IF At(ctx.tx, j0) = c THEN Leaf(j0) ELSE Fail(TRUE)

EvalRange(nm, r, i, f, ctx) ==
    LET Leaf(j) == Match(j + 1, TRUE, Node("chars", nm, r, <<ctx.tx[j]>>, <<>>, PosAt(ctx.ps, j), TRUE))
        j0 == IF f = SKIPHINT THEN SkipWs(ctx.tx, i) ELSE i
        w == FirstIn(ctx.tx, i, j0 - 1, r.a, r.b)
    IN IF i > Len(ctx.tx) THEN Fail(TRUE)
       ELSE IF w > 0 THEN Leaf(w)
       ELSE IF j0 <= Len(ctx.tx) /\ ctx.tx[j0] >= r.a /\ ctx.tx[j0] <= r.b THEN Leaf(j0)
       ELSE Fail(TRUE)

\* index at which literal w matches when whitespace may be skipped (0: it does not):
\* the whitespace w starts with must be the last of the whitespace skipped
SkippedTo(d, i, w) ==
    LET j0 == SkipWs(d, i)
        lw == LeadingWs(w)
    IN IF j0 - i >= lw /\ OccursAt(d, j0 - lw, w) THEN j0 - lw ELSE 0

EvalLiteral(t, nm, r, i, skip, st, ctx) ==
    LET w == r.tx
        j == IF skip THEN SkippedTo(ctx.tx, i, w) ELSE IF OccursAt(ctx.tx, i, w) THEN i ELSE 0
    IN IF i > Len(ctx.tx) \/ j = 0 THEN Fail(st)
       ELSE Match(j + Len(w), st,
                  Node(t, nm, r, w, <<>>, IF Len(w) = 0 THEN NoPos ELSE PosAt(ctx.ps, j), st))

\* the end of the text
EvalEof(r, i, f, ctx) ==
    LET j == IF f = SKIPHINT THEN SkipWs(ctx.tx, i) ELSE i
    IN IF j > Len(ctx.tx) THEN Match(j, TRUE, Node("EOF", <<69, 79, 70>>, r, <<EOFc>>, <<>>, NoPos, TRUE))
       ELSE Fail(TRUE)

------------------------------------------------------------------------------
RECURSIVE Eval(_, _, _, _, _), EvalCat(_, _, _, _, _, _, _, _), EvalRep(_, _, _, _, _, _, _)
RECURSIVE EvalGroups(_, _, _, _, _, _, _), EvalAlts(_, _, _, _, _, _), BlockBody(_, _, _, _)

\* position of the first of the nodes that has one
RECURSIVE FirstPos(_, _)
FirstPos(k, j) == IF j > Len(k) THEN NoPos ELSE IF k[j].p # NoPos THEN k[j].p ELSE FirstPos(k, j + 1)

(* A sequence: its members one after another, whitespace before a member   *)
(* being skipped if the one before is not sticky.                          *)
EvalCat(nm, r, m, i, f, st, kids, ctx) ==
    IF m > Len(r.rs)
    THEN Match(i, st, Node("concatenate", nm, r, <<>>, kids, FirstPos(kids, 1), st))
    ELSE LET x == Eval(<<>>, r.rs[m], i, f, ctx)
             st2 == st /\ x.st
         IN IF ~x.ok THEN Fail(st2)
            ELSE LET unmatched == x.nd.t = "option" /\ Len(x.nd.k) = 0
                 IN EvalCat(nm, r, m + 1, x.e, IF unmatched THEN f ELSE NextFlag(x.st), st2,
                            Append(kids, x.nd), ctx)

(* A repetition: rounds until one does not match, the maximum is reached,  *)
(* the text ends or - without maximum - a round that uses no char.         *)
EvalRep(nm, r, i, f, st, kids, ctx) ==
    LET Done(st2) == IF Len(kids) < r.mn THEN Fail(st2)
                     ELSE Match(i, st2, Node("repetition", nm, r, <<>>, kids, FirstPos(kids, 1), st2))
    IN IF i > Len(ctx.tx) THEN Done(st)
       ELSE IF r.mx > 0 /\ Len(kids) = r.mx THEN Done(st)
       ELSE LET x == Eval(<<>>, r.r, i, f, ctx)
                st2 == st /\ x.st
                kids2 == Append(kids, x.nd)
            IN IF ~x.ok THEN Done(st2)
               ELSE IF r.mx = 0 /\ x.e = i /\ Len(kids2) >= r.mn
                    THEN Match(i, st2, Node("repetition", nm, r, <<>>, kids2, FirstPos(kids2, 1), st2))
               ELSE EvalRep(nm, r, x.e, f, st2, kids2, ctx)

(* The alternatives of one group: the number of longest matches, the       *)
(* longest one and whether all evaluated were sticky.                      *)
EvalAlts(g, m, i, f, best, ctx) ==
    IF m > Len(g) THEN best
    ELSE LET x == Eval(<<>>, g[m], i, f, ctx)
             st == best.st /\ x.st
         IN EvalAlts(g, m + 1, i, f,
                     IF ~x.ok THEN [best EXCEPT !.st = st]
                     ELSE IF best.num = 0 \/ x.e > best.e
                          THEN [num |-> 1, e |-> x.e, st |-> st, nd |-> x.nd]
                     ELSE IF x.e = best.e THEN [best EXCEPT !.st = st, !.num = best.num + 1]
                     ELSE [best EXCEPT !.st = st],
                     ctx)

(* A choice: the longest match of the first group that has one, no match   *)
(* if there are two of that length.                                        *)
EvalGroups(nm, r, m, i, f, st, ctx) ==
    IF m > Len(r.gs) THEN Fail(st)
    ELSE LET b == EvalAlts(r.gs[m], 1, i, f, [num |-> 0, e |-> 0, st |-> st, nd |-> <<>>], ctx)
         IN IF b.num = 0 THEN EvalGroups(nm, r, m + 1, i, f, b.st, ctx)
            ELSE IF b.num > 1 THEN Fail(FALSE)
            ELSE Match(b.e, b.st, Node("choice", nm, r, <<>>, <<b.nd>>, b.nd.p, b.st))

(* The body of a block from index i with content c so far: looks for the   *)
(* close rule, minding escape and exclude rules.                           *)
\* end of the longest match of rules at i, 0 if none matches
RECURSIVE Longest(_, _, _, _, _)
Longest(rs, m, i, best, ctx) ==
    IF m > Len(rs) THEN best
    ELSE LET x == Eval(<<>>, rs[m], i, NOSKIP, ctx)
         IN Longest(rs, m + 1, i, IF x.ok THEN Max2(best, x.e) ELSE best, ctx)

BlockBody(r, i, c, ctx) ==
    LET es == IF Len(r.es) = 0 THEN Fail(TRUE) ELSE Eval(<<>>, r.es[1], i, NOSKIP, ctx)
        escaped == es.ok /\ es.e > i
        j == IF escaped THEN es.e ELSE i
        escape == SubSeq(ctx.tx, i, j - 1)
        x == Longest(r.ex, 1, j, 0, ctx)
        cl == Eval(<<>>, r.cl, j, NOSKIP, ctx)
    IN IF x > 0
       THEN IF escaped THEN BlockBody(r, x, c \o SubSeq(ctx.tx, j, x - 1), ctx) ELSE Fail(FALSE)
       ELSE IF cl.ok
       THEN IF escaped THEN BlockBody(r, cl.e, c \o SubSeq(ctx.tx, j, cl.e - 1), ctx)
            ELSE [ok |-> TRUE, e |-> IF r.vc THEN j ELSE cl.e, c |-> c,
                  k |-> IF r.vc THEN <<>> ELSE <<cl.nd>>]
       ELSE IF j > Len(ctx.tx) THEN Fail(FALSE)
       ELSE BlockBody(r, j + 1, c \o escape \o escape \o <<ctx.tx[j]>>, ctx)

Unmarked == [v |-> FALSE, d |-> FALSE, o |-> FALSE]

EvalBlk(nm, r, i, f, ctx) ==
    LET op == Eval(<<>>, r.op, i, f, ctx)
    IN IF ~op.ok THEN Fail(FALSE)
       ELSE LET b == BlockBody(r, op.e, <<>>, ctx)
                pc == PosAt(ctx.ps, op.e)
                content == Node("chars", <<>>, Unmarked, b.c, <<>>, pc, TRUE)
            IN IF ~b.ok THEN Fail(FALSE)
               ELSE Match(b.e, FALSE, Node("block", nm, r, <<>>, <<op.nd, content>> \o b.k,
                                           IF op.nd.p = NoPos THEN pc ELSE op.nd.p, FALSE))

Toggle(nd, r) == [nd EXCEPT !.v = (nd.v # r.v), !.d = (nd.d # r.d), !.o = (nd.o # r.o)]

Eval(nm, r, i, f, ctx) ==
    CASE r.k = "char"   -> EvalChar(nm, r, i, f, ctx)
      [] r.k = "range"  -> EvalRange(nm, r, i, f, ctx)
      [] r.k = "chars"  -> EvalLiteral("chars", nm, r, i, f = SKIPHINT, TRUE, ctx)
      [] r.k = "string" -> EvalLiteral("string", nm, r, i, f # NOSKIP, FALSE, ctx)
      [] r.k = "eof"    -> EvalEof(r, i, f, ctx)
      [] r.k = "cat"    -> EvalCat(nm, r, 1, i, f, TRUE, <<>>, ctx)
      [] r.k = "alt"    -> EvalGroups(nm, r, 1, i, f, TRUE, ctx)
      [] r.k = "rep"    -> EvalRep(nm, r, i, f, TRUE, <<>>, ctx)
      [] r.k = "opt"    -> LET x == Eval(<<>>, r.r, i, f, ctx)
                           IN IF x.ok THEN Match(x.e, x.st, Node("option", nm, r, <<>>, <<x.nd>>, x.nd.p, x.st))
                              ELSE Match(i, x.st, Node("option", nm, r, <<>>, <<>>, NoPos, x.st))
      [] r.k = "grp"    -> LET x == Eval(<<>>, r.r, i, f, ctx)
                           IN IF x.ok THEN Match(x.e, x.st, Node("group", nm, r, <<>>, <<x.nd>>, x.nd.p, x.st))
                              ELSE Fail(x.st)
      [] r.k = "ref"    -> IF r.to \in DOMAIN ctx.g
                           THEN LET x == Eval(r.to, ctx.g[r.to], i, f, ctx)
                                IN IF x.ok THEN [x EXCEPT !.nd = Toggle(x.nd, r)] ELSE x
                           ELSE Fail(FALSE)
      [] r.k = "blk"    -> EvalBlk(nm, r, i, f, ctx)

\* evaluating the rule called nm at the start of the text
EvalRule(nm, i, f, ctx) == IF nm \in DOMAIN ctx.g THEN Eval(nm, ctx.g[nm], i, f, ctx) ELSE Fail(FALSE)
=============================================================================
