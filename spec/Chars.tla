------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Chars are code points (integers), a text is a sequence of them.  EOFc   *)
(* is the value a stream delivers at its end.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EOFc == -1

\* the 25 chars that count as whitespace
WSPACES == {9, 10, 11, 12, 13, 32, 133, 160, 5760} \cup (8192..8202)
           \cup {8232, 8233, 8239, 8287, 12288}

IsWS(c) == \/ c = 32
           \/ c \in WSPACES

At(d, i) == IF i >= 1 /\ i <= Len(d) THEN d[i] ELSE EOFc

RECURSIVE SkipWs(_, _)
\* index of the first char of d at or after i that is not whitespace
SkipWs(d, i) == IF i <= Len(d) /\ IsWS(d[i]) THEN SkipWs(d, i + 1) ELSE i

RECURSIVE TrimRight(_, _)
TrimRight(d, j) == IF j >= 1 /\ IsWS(d[j]) THEN TrimRight(d, j - 1) ELSE j

Trim(d) == SubSeq(d, SkipWs(d, 1), TrimRight(d, Len(d)))

LeadingWs(d) == SkipWs(d, 1) - 1   \* number of whitespaces d starts with

\* does w occur in d at index i
OccursAt(d, i, w) ==
    /\ i + Len(w) - 1 <= Len(d)
    /\ \A k \in 1..Len(w) : d[i + k - 1] = w[k]

\* number of chars of w that agree with d from index i on
RECURSIVE Agree(_, _, _, _)
Agree(d, i, w, k) == IF k <= Len(w) /\ i + k - 1 <= Len(d) /\ d[i + k - 1] = w[k]
                     THEN Agree(d, i, w, k + 1) ELSE k - 1

RECURSIVE IndexOf(_, _, _)
\* first index >= i of char c in d, 0 if none
IndexOf(d, c, i) == IF i > Len(d) THEN 0 ELSE IF d[i] = c THEN i ELSE IndexOf(d, c, i + 1)

RECURSIVE SplitAt(_, _, _, _)
SplitAt(d, c, i, acc) ==
    LET j == IndexOf(d, c, i)
    IN IF j = 0 THEN Append(acc, SubSeq(d, i, Len(d)))
       ELSE SplitAt(d, c, j + 1, Append(acc, SubSeq(d, i, j - 1)))

Split(d, c) == SplitAt(d, c, 1, <<>>)

(***************************************************************************)
(* Line and column of each char of a text, both from 1; a newline is the   *)
(* last char of its line.  <<0,0>> stands for "no position".               *)
(***************************************************************************)
NoPos == <<0, 0>>

RECURSIVE PosFrom(_, _, _, _, _)
PosFrom(d, i, l, c, acc) ==
    IF i > Len(d) THEN acc
    ELSE IF d[i] = 10 THEN PosFrom(d, i + 1, l + 1, 1, Append(acc, <<l, c>>))
         ELSE PosFrom(d, i + 1, l, c + 1, Append(acc, <<l, c>>))

Positions(d) == PosFrom(d, 1, 1, 1, <<>>)

\* position of the char at index i of a text, found without the others'
PlaceOf(d, i) == LET nl == {k \in 1..(i - 1) : d[k] = 10}
                 IN <<1 + Cardinality(nl), IF nl = {} THEN i ELSE i - (CHOOSE k \in nl : \A m \in nl : m <= k)>>

\* position of the char at index i of a text whose positions are ps
PosAt(ps, i) == IF i >= 1 /\ i <= Len(ps) THEN ps[i] ELSE NoPos

Max2(a, b) == IF a > b THEN a ELSE b

\* a number as text
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
=============================================================================
