------------------------------ MODULE Printing ------------------------------
(***************************************************************************)
(* A way of writing rules in the notation.                                 *)
(***************************************************************************)
EXTENDS Notation

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex(n) == <<92, 117, HexDigit(n \div 4096), HexDigit((n \div 256) % 16), HexDigit((n \div 16) % 16), HexDigit(n % 16)>>

\* chars that are written by their number: what ends a literal or line, and surrogates
Coded(c, q) == c = q \/ c = 92 \/ c < 32 \/ (c >= 55296 /\ c <= 57343)
RECURSIVE WriteChars(_, _, _, _)
WriteChars(w, q, j, acc) == IF j > Len(w) THEN acc
                            ELSE WriteChars(w, q, j + 1, acc \o (IF Coded(w[j], q) THEN Hex(w[j]) ELSE <<w[j]>>))
Marks0(r) == (IF r.o THEN <<36>> ELSE <<>>) \o (IF r.v THEN <<126>> ELSE <<>>) \o (IF r.d THEN <<35>> ELSE <<>>)

\* sp: what is written between two parts
RECURSIVE Write(_, _), WriteSeq(_, _, _, _), WriteAlts(_, _, _, _), WriteGroups(_, _, _, _), WriteEx(_, _, _, _)
WriteSeq(rs, sp, j, acc) == IF j > Len(rs) THEN acc
                            ELSE WriteSeq(rs, sp, j + 1, (IF j > 1 THEN acc \o sp ELSE acc) \o Write(rs[j], sp))
WriteAlts(g, sp, j, acc) == IF j > Len(g) THEN acc
                            ELSE WriteAlts(g, sp, j + 1, (IF j > 1 THEN acc \o sp \o <<124>> \o sp ELSE acc) \o Write(g[j], sp))
WriteGroups(gs, sp, j, acc) == IF j > Len(gs) THEN acc
                               ELSE WriteGroups(gs, sp, j + 1, (IF j > 1 THEN acc \o sp \o <<62>> \o sp ELSE acc) \o WriteAlts(gs[j], sp, 1, <<>>))
\* in a block a space ends a rule, so that composite ones are written as groups
Operand(r) == IF r.k \in {"cat", "alt"} THEN <<40>> \o Write(r, <<32>>) \o <<41>> ELSE Write(r, <<32>>)
WriteEx(ex, sp, j, acc) == IF j > Len(ex) THEN acc ELSE WriteEx(ex, sp, j + 1, acc \o <<94>> \o Operand(ex[j]) \o <<32>>)
Bounds0(r) == IF r.mn = 0 /\ r.mx = 0 THEN <<42>> ELSE IF r.mn = 1 /\ r.mx = 0 THEN <<43>>
              ELSE <<60>> \o Digits(r.mn) \o <<44>> \o (IF r.mx = 0 THEN <<>> ELSE Digits(r.mx)) \o <<62>>
Write(r, sp) ==
    Marks0(r) \o
    CASE r.k \in {"char", "chars"} -> <<39>> \o WriteChars(r.tx, 39, 1, <<>>) \o <<39>>
      [] r.k = "string" -> <<34>> \o WriteChars(r.tx, 34, 1, <<>>) \o <<34>>
      [] r.k = "range" -> <<39>> \o WriteChars(<<r.a>>, 39, 1, <<>>) \o <<39, 45>> \o
                          (IF Coded(r.b, 39) THEN Hex(r.b) ELSE <<39, r.b, 39>>)
      [] r.k = "cat" -> WriteSeq(r.rs, sp, 1, <<>>)
      [] r.k = "alt" -> WriteGroups(r.gs, sp, 1, <<>>)
      [] r.k = "opt" -> <<91>> \o sp \o Write(r.r, sp) \o sp \o <<93>>
      [] r.k = "grp" -> <<40>> \o sp \o Write(r.r, sp) \o sp \o <<41>>
      [] r.k = "rep" -> <<123>> \o sp \o Write(r.r, sp) \o sp \o <<125>> \o Bounds0(r)
      [] r.k = "ref" -> r.to
      [] r.k = "eof" -> <<69, 79, 70>>
      [] r.k = "blk" -> <<60>> \o Operand(r.op) \o <<32>> \o (IF Len(r.es) = 1 THEN Operand(r.es[1]) \o <<32>> ELSE <<>>)
                        \o WriteEx(r.ex, sp, 1, <<>>) \o Operand(r.cl) \o (IF r.vc THEN <<33>> ELSE <<>>) \o <<62>>
=============================================================================
