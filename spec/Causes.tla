------------------------------- MODULE Causes -------------------------------
(***************************************************************************)
(* What an error may give as the cause of a failure.  A cause is one of    *)
(*   <<"at", what, line, col>>  a literal or range is missing there        *)
(*   <<"eof", what>>      something is missing at the end of the text      *)
(*   <<"more">>           the end of the text is missing                   *)
(*   <<"few", n, m>>      the text ended after n of at least m rounds      *)
(*   <<"ambiguous">>      two longest matches of a choice                  *)
(*   <<"excluded", w>>    text w is not allowed in a block                 *)
(*   <<"undefined", nm>>  a rule referred to is not there                  *)
(*   <<"tie", a, b>>      two longest matches of root rules, of the rules  *)
(*                        a and b                                          *)
(*   <<"empty">>          only empty text matches;  <<"nothing">>: no text *)
(* Causes(nm, r, i, f, ctx) is asked for only where r does not match. An   *)
(* error of several alternatives may give the cause of any of them.        *)
(***************************************************************************)
EXTENDS Rules

------------------------------------------------------------------------------
(* What rule r, which has the name nm, is called in errors                 *)
OrMore == <<32, 111, 114, 32, 109, 111, 114, 101>>         \*  or more
To     == <<32, 116, 111, 32>>                             \*  to
Times  == <<32, 116, 105, 109, 101, 40, 115, 41>>          \*  time(s)
OfA    == <<32, 111, 102, 32>>                             \*  of
AndA   == <<32, 97, 110, 100, 32>>                         \*  and
Optional == <<111, 112, 116, 105, 111, 110, 97, 108, 32>>  \* optional

RECURSIVE Flat(_, _, _)
Flat(ss, j, acc) == IF j > Len(ss) THEN acc ELSE Flat(ss, j + 1, acc \o ss[j])
RECURSIVE Called(_, _), ListOf(_, _, _)
ListOf(rs, j, acc) == IF j > Len(rs) THEN acc
                      ELSE ListOf(rs, j + 1, acc \o (IF j = Len(rs) THEN AndA ELSE <<44, 32>>) \o Called(<<>>, rs[j]))
Called(nm, r) ==
    CASE r.k = "eof" -> <<69, 79, 70>>
      [] r.k = "ref" -> r.to
      [] r.k = "opt" -> Optional \o (IF nm # <<>> THEN nm ELSE Called(<<>>, r.r))
      [] r.k = "rep" -> LET n == Digits(r.mn) \o (IF r.mx = 0 THEN OrMore ELSE To \o Digits(r.mx)) \o Times
                        IN IF nm # <<>> THEN nm \o <<58, 32>> \o n ELSE n \o OfA \o Called(<<>>, r.r)
      [] OTHER ->
          IF nm # <<>> THEN nm
          ELSE CASE r.k \in {"char", "chars"} -> <<39>> \o r.tx \o <<39>>
                 [] r.k = "string" -> <<34>> \o r.tx \o <<34>>
                 [] r.k = "range" -> <<r.a, 45, r.b>>
                 [] r.k = "grp" -> Called(<<>>, r.r)
                 [] r.k = "blk" -> Called(<<>>, r.op) \o To \o Called(<<>>, r.cl)
                 [] r.k \in {"cat", "alt"} -> LET rs == IF r.k = "cat" THEN r.rs ELSE Flat(r.gs, 1, <<>>)
                                             IN ListOf(rs, 2, Called(<<>>, rs[1]))

------------------------------------------------------------------------------
\* a place where something is looked for, which may be the end
PlaceAt(what, i, ctx) == IF i > Len(ctx.tx) THEN <<"eof", what>> ELSE <<"at", what, PosAt(ctx.ps, i)[1], PosAt(ctx.ps, i)[2]>>
\* where it is evaluated or, past the whitespace skipped, looked for
Missing(what, i, skip, ctx) == {PlaceAt(what, i, ctx)} \cup IF skip THEN {PlaceAt(what, SkipWs(ctx.tx, i), ctx)} ELSE {}

RECURSIVE Causes(_, _, _, _, _), CatCauses(_, _, _, _, _), RepCauses(_, _, _, _, _), AltCauses(_, _, _, _, _, _), BodyCauses(_, _, _)

CatCauses(rs, m, i, f, ctx) ==
    LET x == Eval(<<>>, rs[m], i, f, ctx)
    IN IF ~x.ok THEN Causes(<<>>, rs[m], i, f, ctx)
       ELSE CatCauses(rs, m + 1, x.e, IF x.nd.t = "option" /\ Len(x.nd.k) = 0 THEN f ELSE NextFlag(x.st), ctx)

\* fewer rounds than the minimum: the one that does not match, or the end of the text
RepCauses(r, n, i, f, ctx) ==
    IF i > Len(ctx.tx) THEN {<<"few", n, r.mn>>}
    ELSE LET x == Eval(<<>>, r.r, i, f, ctx)
         IN IF ~x.ok THEN Causes(<<>>, r.r, i, f, ctx) ELSE RepCauses(r, n + 1, x.e, f, ctx)

\* all alternatives of all groups
AltCauses(gs, g, m, i, f, ctx) ==
    IF g > Len(gs) THEN {}
    ELSE IF m > Len(gs[g]) THEN AltCauses(gs, g + 1, 1, i, f, ctx)
    ELSE Causes(<<>>, gs[g][m], i, f, ctx) \cup AltCauses(gs, g, m + 1, i, f, ctx)

\* see BlockBody
BodyCauses(r, i, ctx) ==
    LET es == IF Len(r.es) = 0 THEN Fail(TRUE) ELSE Eval(<<>>, r.es[1], i, NOSKIP, ctx)
        escaped == es.ok /\ es.e > i
        j == IF escaped THEN es.e ELSE i
        x == Longest(r.ex, 1, j, 0, ctx)
        cl == Eval(<<>>, r.cl, j, NOSKIP, ctx)
    IN IF x > 0 THEN IF escaped THEN BodyCauses(r, x, ctx) ELSE {<<"excluded", SubSeq(ctx.tx, j, x - 1)>>}
       ELSE IF cl.ok THEN BodyCauses(r, cl.e, ctx)
       ELSE IF j > Len(ctx.tx) THEN {<<"eof", Called(<<>>, r.cl)>>}
       ELSE BodyCauses(r, j + 1, ctx)

Causes(nm, r, i, f, ctx) ==
    CASE r.k \in {"char", "range", "chars"} -> Missing(Called(nm, r), i, f = SKIPHINT, ctx)
      [] r.k = "string" -> Missing(Called(nm, r), i, f # NOSKIP, ctx)
      [] r.k = "eof" -> {<<"more">>}
      [] r.k = "cat" -> CatCauses(r.rs, 1, i, f, ctx)
      [] r.k = "rep" -> RepCauses(r, 0, i, f, ctx)
      [] r.k = "grp" -> Causes(<<>>, r.r, i, f, ctx)
      [] r.k = "alt" -> IF \E g \in 1..Len(r.gs) : EvalAlts(r.gs[g], 1, i, f, [num |-> 0, e |-> 0, st |-> TRUE, nd |-> <<>>], ctx).num > 1
                        THEN {<<"ambiguous">>}
                        ELSE AltCauses(r.gs, 1, 1, i, f, ctx)
      [] r.k = "ref" -> IF r.to \in DOMAIN ctx.g THEN Causes(r.to, ctx.g[r.to], i, f, ctx) ELSE {<<"undefined", r.to>>}
      [] r.k = "blk" -> LET op == Eval(<<>>, r.op, i, f, ctx)
                        IN IF op.ok THEN BodyCauses(r, op.e, ctx) ELSE Causes(<<>>, r.op, i, f, ctx)
      [] OTHER -> {}      \* an option always matches

CausesOfRule(nm, i, f, ctx) == IF nm \in DOMAIN ctx.g THEN Causes(nm, ctx.g[nm], i, f, ctx) ELSE {<<"undefined", nm>>}

------------------------------------------------------------------------------
\* of the error a parse with the roots rts comes to at index i
ParseCauses(rts, i, f, ctx) ==
    IF Len(ctx.tx) = 0 THEN {<<"nothing">>}
    ELSE LET rs == {rts[m] : m \in 1..Len(rts)}
             xs == [nm \in rs |-> EvalRule(nm, i, f, ctx)]
             ms == {nm \in rs : xs[nm].ok}
             ls == {nm \in ms : \A o \in ms : xs[o].e <= xs[nm].e}
         IN IF ms = {} THEN UNION {CausesOfRule(nm, i, f, ctx) : nm \in rs}
            ELSE IF \E nm \in ls, o \in ls : nm # o THEN {<<"tie", xs[p[1]].nd.n, xs[p[2]].nd.n>> : p \in {q \in ls \X ls : q[1] # q[2]}}
            ELSE {<<"empty">>}
\* what an error says: at least one cause (a grammar without roots has none), and none that is
\* not there
Explains(ca, cs) == (cs # {} => Len(ca) > 0) /\ \A j \in 1..Len(ca) : ca[j] \in cs
=============================================================================
