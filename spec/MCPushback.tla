----------------------------- MODULE MCPushback -----------------------------
(***************************************************************************)
(* How rules look ahead and give back what they do not need.  A rule takes *)
(* chars from the stream it is given; when it ends it says which chars it  *)
(* read and which of them are unused, and whoever called it hands these    *)
(* back in front of the stream before going on.  Composite rules (of any   *)
(* depth) do nothing but calling others and handing back.                  *)
(*                                                                         *)
(* Chars are their indexes here.  Checked: whatever rules take and match,  *)
(* the chars read are exactly those taken in order, the unused ones their  *)
(* end, and the next rule gets the char after the match - or, after a      *)
(* failure, the char where the failed rule began.                          *)
(*                                                                         *)
(* Mistake: one of several ways of getting it wrong, which is found.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Len0, Depth, MaxCalls, Mistake

VARIABLES src,    \* chars taken from the text itself
          buf,    \* chars handed back, to be delivered first
          stack,  \* rules in progress, the innermost last: at, index it began at; rd, un: chars read, unused;
                  \*  used: chars used; ok: nothing in it failed
          res     \* result of the rule that ended last: ok, rd, un; <<>> if it was dealt with
pvars == <<src, buf, stack, res>>

Frame(at, d) == [at |-> at, rd |-> <<>>, used |-> <<>>, calls |-> 0, d |-> d]
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
\* index of the next char to be delivered
NextIdx == IF buf # <<>> THEN Head(buf) ELSE src + 1

Init == src = 0 /\ buf = <<>> /\ stack = <<Frame(1, 0)>> /\ res = <<>>

\* a composite rule calls another rule
Call == /\ res = <<>> /\ Len(stack) <= Depth /\ Top.calls < MaxCalls
        /\ stack' = Append([stack EXCEPT ![Len(stack)].calls = @ + 1], Frame(NextIdx, Len(stack)))
        /\ UNCHANGED <<src, buf, res>>

\* a literal: it takes some chars and matches the first of them, or none
RECURSIVE Taken(_, _, _)
Taken(n, b, s) == IF n = 0 THEN [got |-> <<>>, b |-> b, s |-> s]
                  ELSE IF b # <<>> THEN LET x == Taken(n - 1, Tail(b), s) IN [x EXCEPT !.got = <<Head(b)>> \o x.got]
                  ELSE IF s < Len0 THEN LET x == Taken(n - 1, b, s + 1) IN [x EXCEPT !.got = <<s + 1>> \o x.got]
                  ELSE [got |-> <<>>, b |-> b, s |-> s]
Literal == /\ res = <<>> /\ Len(stack) > 1 /\ Top.calls = 0
           /\ \E n \in 0..3, m \in 0..3, ok \in BOOLEAN :
                 LET x == Taken(n, buf, src)
                     k == IF ok THEN m ELSE 0
                 IN /\ k <= Len(x.got)
                    /\ buf' = x.b /\ src' = x.s
                    /\ res' = [ok |-> ok, rd |-> x.got,
                               un |-> IF Mistake = "order" /\ Len(x.got) - k = 2 THEN <<x.got[Len(x.got)], x.got[Len(x.got) - 1]>>
                                      ELSE SubSeq(x.got, k + 1, Len(x.got))]
                    /\ stack' = Rest

\* the caller goes on: hands back what is unused (keeps what was read and what was used)
GoOn == /\ res # <<>> /\ Len(stack) >= 1
        /\ buf' = IF Mistake = "lost" /\ ~res.ok THEN buf ELSE res.un \o buf
        /\ LET usedNow == SubSeq(res.rd, 1, Len(res.rd) - Len(res.un))
           IN stack' = [stack EXCEPT ![Len(stack)].used = @ \o usedNow]
        /\ res' = <<>>
        /\ UNCHANGED src

\* a composite rule ends: with a match what it handed back is not its own any more;
\* when it fails, all that was used is unused again
End == /\ res = <<>> /\ Len(stack) > 1 /\ Top.calls > 0
       /\ \E ok \in BOOLEAN :
             res' = [ok |-> ok, rd |-> Top.used,
                     un |-> IF ok THEN <<>>
                            ELSE IF Mistake = "partial" /\ Len(Top.used) > 1 THEN SubSeq(Top.used, 2, Len(Top.used))
                            ELSE Top.used]
       /\ stack' = Rest
       /\ UNCHANGED <<src, buf>>

Next == Call \/ Literal \/ GoOn \/ End
Spec == Init /\ [][Next]_pvars

IsRun(s, i) == \A j \in 1..Len(s) : s[j] = i + j - 1
\* what is read is what follows where the rule began; what is unused the end of it
Reported == res # <<>> => LET at == IF Len(stack) = 0 THEN 1 ELSE Top.at + Len(Top.used)
                          IN IsRun(res.rd, at) /\ IsRun(res.un, at + Len(res.rd) - Len(res.un)) /\ (~res.ok => res.un = res.rd)
\* the next char is the one after all that was used
InPlace == res = <<>> => NextIdx = Top.at + Len(Top.used)
\* nothing is lost or repeated: used, handed back and not yet taken are the text
Whole == res = <<>> => IsRun(buf, NextIdx) /\ NextIdx + Len(buf) = src + 1
=============================================================================
