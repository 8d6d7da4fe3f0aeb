----------------------------- MODULE CharStream -----------------------------
(***************************************************************************)
(* A stream of chars, as seen by who uses it, chars handed back included.  *)
(*                                                                         *)
(* Each operation is an operator giving its result and the stream after    *)
(* it.  A stream s is a record: tx, the text; cur, number of chars         *)
(* consumed; top, the largest number of chars ever consumed (chars handed  *)
(* back stay known).                                                       *)
(***************************************************************************)
EXTENDS Chars

NewStream(tx) == [tx |-> tx, cur |-> 0, top |-> 0]

To(s, n) == [s EXCEPT !.cur = n, !.top = Max2(s.top, n)]

Next1(s) == IF s.cur < Len(s.tx) THEN [r |-> <<s.tx[s.cur + 1]>>, s |-> To(s, s.cur + 1)] ELSE [r |-> <<EOFc>>, s |-> s]

Peek1(s) == [r |-> <<At(s.tx, s.cur + 1)>>, s |-> s]

\* consumes up to and including the first difference
MatchW(s, w) ==
    LET n == Agree(s.tx, s.cur + 1, w, 1)      \* chars that agree
        e == IF n = Len(w) \/ s.cur + n >= Len(s.tx) THEN s.cur + n ELSE s.cur + n + 1
    IN [r |-> SubSeq(s.tx, s.cur + 1, e), ok |-> n = Len(w), s |-> To(s, e)]

Skip(s) == LET e == SkipWs(s.tx, s.cur + 1) - 1 IN [r |-> SubSeq(s.tx, s.cur + 1, e), s |-> To(s, e)]

\* position of the next char
PosNext(s) == IF s.cur >= Len(s.tx) THEN NoPos ELSE PlaceOf(s.tx, s.cur + 1)

\* position of a char that was consumed; the first one is always known
LookUp(s, i) == IF i = 0 THEN <<1, 1>>
                ELSE IF i < 0 \/ i >= s.top THEN NoPos
                ELSE PlaceOf(s.tx, i + 1)

\* the last n chars consumed are handed back
Back(s, n) == [s EXCEPT !.cur = s.cur - n]
=============================================================================
