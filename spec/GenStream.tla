----------------------------- MODULE GenStream -----------------------------
(***************************************************************************)
(* Everything that can be done with a stream of a short text: the states   *)
(* of a stream, chars handed back in front of it included, and what leads  *)
(* from one to another.                                                    *)
(*                                                                         *)
(* Checked here: what was delivered and not handed back is always the      *)
(* start of the text (got), and the cursor tells how much of it.           *)
(*                                                                         *)
(* With Emit every transition is printed together with a shortest way to   *)
(* it; those ways are then gone with the real library, and what it did is  *)
(* checked with TraceStream.                                               *)
(***************************************************************************)
EXTENDS CharStream, TLC, Json

CONSTANTS Alphabet, MaxLen, MaxLayers, Emit

VARIABLES s,     \* the stream
          got,   \* what was delivered and not handed back
          lay,   \* how many chars are left of each of those handed back, the last ones first
          h      \* what was done
gvars == <<s, got, lay, h>>

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Words == UNION {[1..n -> Alphabet] : n \in 1..2} \cup {<<>>}

Init == /\ s \in {NewStream(tx) : tx \in Texts}
        /\ got = <<>> /\ lay = <<>> /\ h = <<>>

\* n chars were taken: first of the chars handed back last
RECURSIVE TakeFrom(_, _)
TakeFrom(ls, n) == IF ls = <<>> THEN <<>>
                   ELSE IF n >= ls[1] THEN TakeFrom(Tail(ls), n - ls[1])
                   ELSE <<ls[1] - n>> \o Tail(ls)

Did(op) == /\ h' = Append(h, op)
           /\ IF Emit THEN PrintT("GEN " \o ToJson([tx |-> s.tx, ops |-> h'])) ELSE TRUE

Deliver(x, op) == /\ s' = x.s
                  /\ got' = IF x.r = <<EOFc>> THEN got ELSE got \o x.r
                  /\ lay' = TakeFrom(lay, x.s.cur - s.cur)
                  /\ Did(op)

DoNext == Deliver(Next1(s), [op |-> "next"])
DoSkip == Deliver(Skip(s), [op |-> "skip"])
DoMatch == \E w \in Words : Deliver(MatchW(s, w), [op |-> "match", w |-> w])
\* asking, which changes nothing in the model but may do so in a real stream: only as the last thing
Ask == /\ \/ Did([op |-> "peek"]) \/ Did([op |-> "cursor"]) \/ Did([op |-> "pos"])
          \/ \E i \in 0..s.top : Did([op |-> "look", i |-> i])
       /\ UNCHANGED <<s, got, lay>>
DoBack == /\ Len(lay) < MaxLayers
          /\ \E n \in 1..s.cur :
                /\ s' = Back(s, n)
                /\ got' = SubSeq(got, 1, Len(got) - n)
                /\ lay' = <<n>> \o lay
                /\ Did([op |-> "back", n |-> n])

Next == DoNext \/ DoSkip \/ DoMatch \/ Ask \/ DoBack
Spec == Init /\ [][Next]_gvars
View == <<s, got, lay>>

RECURSIVE Newlines(_, _)
\* number of newlines among the first i chars
Newlines(d, i) == IF i = 0 THEN 0 ELSE (IF d[i] = 10 THEN 1 ELSE 0) + Newlines(d, i - 1)

Delivered == got = SubSeq(s.tx, 1, s.cur)
Cursor == s.cur >= 0 /\ s.cur <= s.top /\ s.top <= Len(s.tx)
\* every char consumed has its place, and places grow
Places == \A i \in 0..(s.top - 1) : LET p == LookUp(s, i) IN
             /\ p # NoPos
             /\ i > 0 => LET q == LookUp(s, i - 1) IN q[1] < p[1] \/ (q[1] = p[1] /\ q[2] < p[2])
             /\ p[1] = 1 + Newlines(s.tx, i)
             /\ p = Positions(s.tx)[i + 1]
=============================================================================
