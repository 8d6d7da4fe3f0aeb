------------------------------ MODULE Notation ------------------------------
(***************************************************************************)
(* The notation in which rules are defined: which definition texts are     *)
(* well formed and which rule each of them denotes.                        *)
(*                                                                         *)
(* A rule is a record with its kind k, its annotations (o token, v         *)
(* virtual, d non-data), and for each kind:                                *)
(*   char, chars, string : tx, the literal                                 *)
(*   range               : a, b                                            *)
(*   cat                 : rs, the members                                 *)
(*   alt                 : gs, groups of alternatives                      *)
(*   opt, grp            : r                                               *)
(*   rep                 : r, mn, mx (0: no bound)                         *)
(*   ref                 : to, name of the rule referred to                *)
(*   eof                                                                   *)
(*   blk                 : op, es (0 or 1 rule), ex (rules), cl, vc        *)
(***************************************************************************)
EXTENDS Chars

Plain(k) == [k |-> k, o |-> FALSE, v |-> FALSE, d |-> FALSE]
RChar(c)        == [k |-> "char", o |-> FALSE, v |-> FALSE, d |-> FALSE, tx |-> <<c>>]
RChars(w)       == [k |-> "chars", o |-> FALSE, v |-> FALSE, d |-> FALSE, tx |-> w]
RString(w)      == [k |-> "string", o |-> FALSE, v |-> FALSE, d |-> FALSE, tx |-> w]
RRange(a, b)    == [k |-> "range", o |-> FALSE, v |-> FALSE, d |-> FALSE, a |-> a, b |-> b]
RCat(rs)        == [k |-> "cat", o |-> FALSE, v |-> FALSE, d |-> FALSE, rs |-> rs]
RAlt(gs)        == [k |-> "alt", o |-> FALSE, v |-> FALSE, d |-> FALSE, gs |-> gs]
ROpt(r)         == [k |-> "opt", o |-> FALSE, v |-> FALSE, d |-> FALSE, r |-> r]
RGrp(r)         == [k |-> "grp", o |-> FALSE, v |-> FALSE, d |-> FALSE, r |-> r]
RRep(r, mn, mx) == [k |-> "rep", o |-> FALSE, v |-> FALSE, d |-> FALSE, r |-> r, mn |-> mn, mx |-> mx]
RRef(nm)        == [k |-> "ref", o |-> FALSE, v |-> FALSE, d |-> FALSE, to |-> nm]
REof            == [k |-> "eof", o |-> FALSE, v |-> FALSE, d |-> FALSE]
RBlk(op, es, ex, cl, vc) ==
    [k |-> "blk", o |-> FALSE, v |-> FALSE, d |-> FALSE,
     op |-> op, es |-> es, ex |-> ex, cl |-> cl, vc |-> vc]

NoAnn == [o |-> FALSE, v |-> FALSE, d |-> FALSE]
AnnSet(a) == a.o \/ a.v \/ a.d
WithAnn(a, c) == IF c = 36 THEN [a EXCEPT !.o = TRUE]
                 ELSE IF c = 126 THEN [a EXCEPT !.v = TRUE]
                 ELSE [a EXCEPT !.d = TRUE]
Annotate(r, a) == [r EXCEPT !.o = a.o, !.v = a.v, !.d = a.d]

Bad == [ok |-> FALSE]
Good(i, r) == [ok |-> TRUE, i |-> i, r |-> r]

IsLetter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
IsDigit(c)  == c >= 48 /\ c <= 57
IsAnn(c)    == c \in {36, 126, 35}
HexVal(c)   == IF IsDigit(c) THEN c - 48
               ELSE IF c >= 97 /\ c <= 102 THEN c - 87
               ELSE IF c >= 65 /\ c <= 70 THEN c - 55
               ELSE -1
\* 4 hex digits at i
IsHex4(d, i) == \A j \in i..(i + 3) : HexVal(At(d, j)) >= 0
Hex4(d, i)   == HexVal(d[i]) * 4096 + HexVal(d[i+1]) * 256 + HexVal(d[i+2]) * 16 + HexVal(d[i+3])

------------------------------------------------------------------------------
(* A quoted literal: i is the index after the opening quote.               *)
RECURSIVE Literal(_, _, _, _)
Literal(d, i, q, buf) ==
    LET c == At(d, i)
    IN IF c = EOFc THEN Bad
       ELSE IF c = q THEN Good(i + 1, buf)
       ELSE IF c = 92 THEN
            IF At(d, i + 1) = 117
            THEN IF IsHex4(d, i + 2) THEN Literal(d, i + 6, q, Append(buf, Hex4(d, i + 2))) ELSE Bad
            ELSE Literal(d, i + 2, q, Append(buf, At(d, i + 1)))
       ELSE Literal(d, i + 1, q, Append(buf, c))

\* a range with begin b, i is the index of the '-'
RangeEnd(d, i, b) ==
    LET c == At(d, i + 1)
    IN IF c = 39 THEN
          IF At(d, i + 2) = 92
          THEN IF At(d, i + 3) = 117 /\ IsHex4(d, i + 4) /\ At(d, i + 8) = 39
               THEN Good(i + 9, RRange(b, Hex4(d, i + 4))) ELSE Bad
          ELSE IF At(d, i + 2) # EOFc /\ At(d, i + 3) = 39
               THEN Good(i + 4, RRange(b, d[i + 2])) ELSE Bad
       ELSE IF c = 92 THEN
          IF At(d, i + 2) = 117 /\ IsHex4(d, i + 3)
          THEN Good(i + 7, RRange(b, Hex4(d, i + 3))) ELSE Bad
       ELSE Bad

\* a range does not begin after its end
Range(d, i, b) == LET p == RangeEnd(d, i, b) IN IF p.ok /\ p.r.b >= b THEN p ELSE Bad

\* i is the index of the opening single quote
InChar(d, i) ==
    LET l == Literal(d, i + 1, 39, <<>>)
    IN IF ~l.ok THEN Bad
       ELSE IF Len(l.r) = 0 THEN Bad
       ELSE IF Len(l.r) > 1 THEN Good(l.i, RChars(l.r))
       ELSE IF At(d, l.i) = 45 THEN Range(d, l.i, l.r[1])
       ELSE Good(l.i, RChar(l.r[1]))

\* i is the index of a '\' outside quotes
InUnicode(d, i) ==
    IF At(d, i + 1) = 117 /\ IsHex4(d, i + 2)
    THEN IF At(d, i + 6) = 45 THEN Range(d, i + 6, Hex4(d, i + 2))
         ELSE Good(i + 6, RChar(Hex4(d, i + 2)))
    ELSE Bad

\* strings hold Unicode text only, so no surrogates
Utf(c) == IF c >= 55296 /\ c <= 57343 THEN 65533 ELSE c
InString(d, i) ==
    LET l == Literal(d, i + 1, 34, <<>>)
    IN IF ~l.ok THEN Bad ELSE Good(l.i, RString([j \in 1..Len(l.r) |-> Utf(l.r[j])]))

RECURSIVE NameEnd(_, _)
NameEnd(d, i) == LET c == At(d, i) IN IF IsLetter(c) \/ IsDigit(c) \/ c = 95 THEN NameEnd(d, i + 1) ELSE i
InReference(d, i) ==
    LET j == NameEnd(d, i)
        nm == SubSeq(d, i, j - 1)
    IN Good(j, IF nm = <<69, 79, 70>> THEN REof ELSE RRef(nm))

\* digits up to the terminators, spaces in between ignored; -1 as value if none
RECURSIVE NumberEnd(_, _, _, _)
\* the digits from i on (whitespace between them does not matter), without leading zeros
NumberEnd(d, i, comma, ds) ==
    LET c == At(d, i)
    IN IF IsWS(c) THEN NumberEnd(d, i + 1, comma, ds)
       ELSE IF c = 62 \/ (comma /\ c = 44) THEN Good(i, ds)
       ELSE IF IsDigit(c) THEN NumberEnd(d, i + 1, comma, IF ds = <<>> /\ c = 48 THEN ds ELSE Append(ds, c - 48))
       ELSE Bad

\* numbers by their digits
RECURSIVE Below(_, _, _)
Below(a, b, k) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                  ELSE k <= Len(a) /\ (a[k] < b[k] \/ (a[k] = b[k] /\ Below(a, b, k + 1)))
\* the largest number there is; those of more than nine digits are not told apart otherwise
Largest == <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>
RECURSIVE ValueOf(_, _, _)
ValueOf(ds, k, val) == IF Len(ds) > 9 THEN 2000000000 ELSE IF k > Len(ds) THEN val ELSE ValueOf(ds, k + 1, val * 10 + ds[k])

Number(d, i, comma) == LET n == NumberEnd(d, i, comma, <<>>)
                       IN IF ~n.ok \/ Below(Largest, n.r, 1) THEN Bad ELSE n

\* repetition bounds, i is the index of the '<'
InBounds(d, i) ==
    LET m == Number(d, SkipWs(d, i + 1), TRUE)
    IN IF ~m.ok THEN Bad
       ELSE IF d[m.i] = 62 THEN Good(m.i + 1, <<ValueOf(m.r, 1, 0), 0>>)
       ELSE LET x == Number(d, m.i + 1, FALSE)
            IN IF ~x.ok THEN Bad
               ELSE IF x.r # <<>> /\ Below(x.r, m.r, 1) THEN Bad
               ELSE Good(x.i + 1, <<ValueOf(m.r, 1, 0), ValueOf(x.r, 1, 0)>>)

IsComment(d, i) == At(d, i) = 47 /\ At(d, i + 1) = 47
\* index after a comment, which lasts to the end of the line
RECURSIVE CommentEnd(_, _)
CommentEnd(d, i) == IF i > Len(d) THEN i ELSE IF d[i] = 10 THEN i + 1 ELSE CommentEnd(d, i + 1)

RECURSIVE ParseSeq(_, _, _, _, _), ParseOne(_, _, _), InChoice(_, _, _, _)
RECURSIVE InExcludes(_, _, _)

\* the rules from i up to one of the chars in ends (or the end of the text)
Parse(d, i, ends) == ParseSeq(d, SkipWs(d, i), ends, <<>>, NoAnn)

Bracket(d, i, close) ==   \* a rule in brackets, i is the index of the opening one
    LET p == Parse(d, i + 1, {close})
    IN IF p.ok /\ At(d, p.i) = close THEN Good(p.i + 1, p.r) ELSE Bad

InRepetition(d, i) ==
    LET p == Bracket(d, i, 125)
    IN IF ~p.ok THEN Bad
       ELSE LET c == At(d, p.i)
            IN IF c = 42 THEN Good(p.i + 1, RRep(p.r, 0, 0))
               ELSE IF c = 43 THEN Good(p.i + 1, RRep(p.r, 1, 0))
               ELSE IF c = 60 THEN LET b == InBounds(d, p.i)
                                   IN IF b.ok THEN Good(b.i, RRep(p.r, b.r[1], b.r[2])) ELSE Bad
               ELSE Good(p.i, RRep(p.r, 0, 0))

InOption(d, i) == LET p == Bracket(d, i, 93) IN IF p.ok THEN Good(p.i, ROpt(p.r)) ELSE Bad
InGroup(d, i)  == LET p == Bracket(d, i, 41) IN IF p.ok THEN Good(p.i, RGrp(p.r)) ELSE Bad

InExcludes(d, i, acc) ==
    LET j == SkipWs(d, i)
    IN IF At(d, j) # 94 THEN Good(j, acc)
       ELSE LET p == Parse(d, j + 1, {32, 62, 33})
            IN IF p.ok THEN InExcludes(d, p.i, Append(acc, p.r)) ELSE Bad

\* the end of a block, at i there should be '>' or '!' and '>'
BlockClose(d, i) ==
    IF At(d, i) = 62 THEN Good(i + 1, FALSE)
    ELSE IF At(d, i) = 33
         THEN LET j == SkipWs(d, i + 1) IN IF At(d, j) = 62 THEN Good(j + 1, TRUE) ELSE Bad
    ELSE Bad

BlockTail(d, i, op, es) ==
    LET x == InExcludes(d, i, <<>>)
    IN IF ~x.ok THEN Bad
       ELSE LET c == Parse(d, x.i, {62, 33})
            IN IF ~c.ok THEN Bad
               ELSE LET e == BlockClose(d, c.i)
                    IN IF e.ok THEN Good(e.i, RBlk(op, es, x.r, c.r, e.r)) ELSE Bad

InBlock(d, i) ==
    LET op == Parse(d, i + 1, {32, 62, 33})
    IN IF ~op.ok THEN Bad
       ELSE LET j == SkipWs(d, op.i)
            IN IF At(d, j) = 94 THEN BlockTail(d, j, op.r, <<>>)
               ELSE LET p == Parse(d, j, {32, 62, 33})
                    IN IF ~p.ok THEN Bad
                       ELSE LET e == SkipWs(d, p.i)
                            IN IF At(d, e) \in {62, 33}
                               THEN LET b == BlockClose(d, e)
                                    IN IF b.ok THEN Good(b.i, RBlk(op.r, <<>>, <<>>, p.r, b.r)) ELSE Bad
                               ELSE BlockTail(d, e, op.r, <<p.r>>)

\* one construct that starts with c at i; Bad if none does
Construct(d, i, c) ==
    IF c = 39 THEN InChar(d, i)
    ELSE IF c = 92 THEN InUnicode(d, i)
    ELSE IF c = 34 THEN InString(d, i)
    ELSE IF c = 91 THEN InOption(d, i)
    ELSE IF c = 123 THEN InRepetition(d, i)
    ELSE IF c = 60 THEN InBlock(d, i)
    ELSE IF c = 40 THEN InGroup(d, i)
    ELSE IF IsLetter(c) \/ c = 95 THEN InReference(d, i)
    ELSE Bad

\* an alternative after a choice symbol
ParseOne(d, i, a) ==
    LET c == At(d, i)
    IN IF IsWS(c) THEN ParseOne(d, i + 1, a)
       ELSE IF IsComment(d, i) THEN ParseOne(d, CommentEnd(d, i + 2), a)
       ELSE IF IsAnn(c) THEN IF At(d, i + 1) = 124 THEN Bad ELSE ParseOne(d, i + 1, WithAnn(a, c))
       ELSE LET p == Construct(d, i, c) IN IF p.ok THEN Good(p.i, Annotate(p.r, a)) ELSE Bad

\* the alternatives from the choice symbol at i (whitespace before it ignored)
InChoice(d, i, groups, rules) ==
    LET j == SkipWs(d, i)
        c == At(d, j)
    IN IF c = 124 THEN LET p == ParseOne(d, j + 1, NoAnn)
                       IN IF p.ok THEN InChoice(d, p.i, groups, Append(rules, p.r)) ELSE Bad
       ELSE IF c = 62 THEN LET p == ParseOne(d, j + 1, NoAnn)
                           IN IF p.ok THEN InChoice(d, p.i, Append(groups, rules), <<p.r>>) ELSE Bad
       ELSE IF IsComment(d, j) THEN InChoice(d, CommentEnd(d, j + 2), groups, rules)
       ELSE IF c = 47 THEN Bad
       ELSE Good(j, RAlt(Append(groups, rules)))

\* what the rules read so far amount to, a is the annotation of a rule to come
Finish(i, rs, a) == IF Len(rs) = 0 \/ AnnSet(a) THEN Bad ELSE IF Len(rs) = 1 THEN Good(i, rs[1]) ELSE Good(i, RCat(rs))

ParseSeq(d, i, ends, rs, a) ==
    LET c == At(d, i)
    IN IF c = EOFc \/ c \in ends THEN Finish(i, rs, a)
       ELSE IF IsWS(c) THEN ParseSeq(d, i + 1, ends, rs, a)
       ELSE IF IsAnn(c) THEN IF At(d, i + 1) = 124 THEN Bad ELSE ParseSeq(d, i + 1, ends, rs, WithAnn(a, c))
       ELSE IF c = 124 \/ c = 62 THEN
            IF AnnSet(a) \/ Len(rs) = 0 THEN Bad
            ELSE LET p == InChoice(d, i, <<>>, <<rs[Len(rs)]>>)
                 IN IF p.ok THEN ParseSeq(d, p.i, ends, [rs EXCEPT ![Len(rs)] = p.r], NoAnn) ELSE Bad
       ELSE IF IsComment(d, i) THEN ParseSeq(d, CommentEnd(d, i + 2), ends, rs, a)
       ELSE LET p == Construct(d, i, c)
            IN IF p.ok THEN ParseSeq(d, p.i, ends, Append(rs, Annotate(p.r, a)), NoAnn) ELSE Bad

\* the rule a definition text denotes
ParseDef(d) == Parse(Trim(d), 1, {})

ValidName(nm) ==
    /\ Len(nm) >= 1
    /\ IsLetter(nm[1])
    /\ \A j \in 2..Len(nm) : IsLetter(nm[j]) \/ IsDigit(nm[j]) \/ nm[j] = 95

\* name and definition of "name = definition", Bad if there is no '='
SplitDef(d) ==
    LET j == IndexOf(d, 61, 1)
    IN IF j = 0 THEN Bad ELSE Good(Trim(SubSeq(d, 1, j - 1)), Trim(SubSeq(d, j + 1, Len(d))))

------------------------------------------------------------------------------
(* The rules a rule refers to, in the order they are written.              *)
RECURSIVE Refs(_), RefsAll(_, _)
RefsAll(rs, j) == IF j > Len(rs) THEN <<>> ELSE Refs(rs[j]) \o RefsAll(rs, j + 1)
RECURSIVE RefsGroups(_, _)
RefsGroups(gs, j) == IF j > Len(gs) THEN <<>> ELSE RefsAll(gs[j], 1) \o RefsGroups(gs, j + 1)
Refs(r) == CASE r.k = "ref" -> <<r.to>>
             [] r.k = "cat" -> RefsAll(r.rs, 1)
             [] r.k = "alt" -> RefsGroups(r.gs, 1)
             [] r.k \in {"opt", "grp", "rep"} -> Refs(r.r)
             [] r.k = "blk" -> Refs(r.op) \o RefsAll(r.es, 1) \o RefsAll(r.ex, 1) \o Refs(r.cl)
             [] OTHER -> <<>>
RefSet(r) == LET s == Refs(r) IN {s[j] : j \in 1..Len(s)}

------------------------------------------------------------------------------
(* The same rule up to grouping that changes no meaning: a group of one    *)
(* construct around a rule in a block denotes that rule.                   *)
RECURSIVE Same(_, _), SameAll(_, _)
SameAll(rs, ss) == Len(rs) = Len(ss) /\ \A j \in 1..Len(rs) : Same(rs[j], ss[j])
Bare(r) == IF r.k = "grp" /\ ~(r.o \/ r.v \/ r.d) THEN r.r ELSE r
RECURSIVE Bare2(_)
Bare2(r) == IF r.k = "grp" /\ ~(r.o \/ r.v \/ r.d) THEN Bare2(r.r) ELSE r
SameOperand(r, s) == Same(Bare2(r), Bare2(s))
SameOperands(rs, ss) == Len(rs) = Len(ss) /\ \A j \in 1..Len(rs) : SameOperand(rs[j], ss[j])
Same(r, s) ==
    /\ r.k = s.k /\ r.o = s.o /\ r.v = s.v /\ r.d = s.d
    /\ CASE r.k \in {"char", "chars", "string"} -> r.tx = s.tx
         [] r.k = "range" -> r.a = s.a /\ r.b = s.b
         [] r.k = "cat" -> SameAll(r.rs, s.rs)
         [] r.k = "alt" -> Len(r.gs) = Len(s.gs) /\ \A j \in 1..Len(r.gs) : SameAll(r.gs[j], s.gs[j])
         [] r.k \in {"opt", "grp"} -> Same(r.r, s.r)
         [] r.k = "rep" -> Same(r.r, s.r) /\ r.mn = s.mn /\ r.mx = s.mx
         [] r.k = "ref" -> r.to = s.to
         [] r.k = "eof" -> TRUE
         [] r.k = "blk" -> /\ SameOperand(r.op, s.op) /\ SameOperands(r.es, s.es)
                           /\ SameOperands(r.ex, s.ex) /\ SameOperand(r.cl, s.cl) /\ r.vc = s.vc
=============================================================================
