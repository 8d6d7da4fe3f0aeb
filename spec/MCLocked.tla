------------------------------ MODULE MCLocked ------------------------------
(***************************************************************************)
(* How a stream with chars handed back in front of it serves several       *)
(* goroutines: the front keeps the chars handed back and how many of them  *)
(* were taken again, the base is a stream of its own.  An operation works  *)
(* in steps - a char at a time from the front or the base - while it holds *)
(* the lock of the front.                                                  *)
(*                                                                         *)
(* Checked: every operation has the result it has in CharStream at some    *)
(* moment between its start and its end, and those moments are in one      *)
(* order for all of them (the lock makes it the order of releases).  With  *)
(* Locking = FALSE for an operation this is violated.                      *)
(***************************************************************************)
EXTENDS CharStream, FiniteSets, TLC

CONSTANTS Text0, Handed,  \* the text; how many of its chars were read and handed back
          Threads, MaxOps,
          Locking         \* operations that take the lock

VARIABLES base,   \* chars consumed from the base
          front,  \* chars taken of those handed back
          lock,   \* who holds it: set of readers, or one writer
          ops,    \* by thread: the operation in progress, <<>> if none
          left,   \* by thread: operations still to do
          abs,    \* the stream as CharStream has it
          seen    \* by thread: results the operation in progress may have
lvars == <<base, front, lock, ops, left, abs, seen>>

Text4 == <<97, 10, 98, 99>>
Stream0 == [tx |-> Text0, cur |-> 0, top |-> Handed]
Op(k) == [k |-> k, pc |-> "start", r |-> <<>>, n |-> 0]
Kinds == {"next", "take2", "cursor", "look", "pos"}   \* take2: like matching, two chars
Writes(k) == k \in {"next", "take2"}

Init == /\ base = Handed /\ front = 0 /\ lock = [readers |-> {}, writer |-> {}]
        /\ ops = [t \in Threads |-> <<>>] /\ left = [t \in Threads |-> MaxOps]
        /\ abs = Stream0 /\ seen = [t \in Threads |-> {}]

\* what an operation that changes nothing results in
Result(k, s) == CASE k = "cursor" -> <<s.cur>>
                  [] k = "look" -> LookUp(s, Handed)      \* the place of the first char that was not handed back
                  [] k = "pos" -> PosNext(s)
See(s, t) == IF ops'[t] # <<>> /\ ~Writes(ops'[t].k) THEN {Result(ops'[t].k, s)} ELSE {}
\* everybody who is in the middle of an operation may have the result of now
SeenNow(s) == seen' = [t \in Threads |-> IF ops'[t] = <<>> THEN {}
                                          ELSE (IF ops[t] = <<>> THEN {} ELSE seen[t]) \cup See(abs, t) \cup See(s, t)]

Start(t) == /\ ops[t] = <<>> /\ left[t] > 0
            /\ \E k \in Kinds : ops' = [ops EXCEPT ![t] = Op(k)]
            /\ left' = [left EXCEPT ![t] = left[t] - 1]
            /\ UNCHANGED <<base, front, lock, abs>> /\ SeenNow(abs)

Acquire(t) ==
    /\ ops[t] # <<>> /\ ops[t].pc = "start"
    /\ IF ops[t].k \notin Locking THEN UNCHANGED lock
       ELSE IF Writes(ops[t].k) THEN lock.writer = {} /\ lock.readers = {} /\ lock' = [lock EXCEPT !.writer = {t}]
       ELSE lock.writer = {} /\ lock' = [lock EXCEPT !.readers = lock.readers \cup {t}]
    /\ ops' = [ops EXCEPT ![t].pc = "work"]
    /\ UNCHANGED <<base, front, left, abs>> /\ SeenNow(abs)

\* one char is taken, from the front if there is one left
TakeChar(t) ==
    /\ ops[t] # <<>> /\ ops[t].pc = "work" /\ Writes(ops[t].k)
    /\ IF front < Handed
       THEN front' = front + 1 /\ UNCHANGED base /\ ops' = [ops EXCEPT ![t].r = Append(ops[t].r, Text0[front + 1]),
                                                                        ![t].pc = IF ops[t].k = "next" \/ Len(ops[t].r) = 1 THEN "release" ELSE "work"]
       ELSE IF base < Len(Text0)
       THEN base' = base + 1 /\ UNCHANGED front /\ ops' = [ops EXCEPT ![t].r = Append(ops[t].r, Text0[base + 1]),
                                                                       ![t].pc = IF ops[t].k = "next" \/ Len(ops[t].r) = 1 THEN "release" ELSE "work"]
       ELSE UNCHANGED <<base, front>> /\ ops' = [ops EXCEPT ![t].pc = "release"]
    /\ UNCHANGED <<lock, left, abs>> /\ SeenNow(abs)

\* asking: first the front is looked at, then the base
Ask1(t) == /\ ops[t] # <<>> /\ ops[t].pc = "work" /\ ~Writes(ops[t].k)
           /\ ops' = [ops EXCEPT ![t].n = front, ![t].pc = "base"]
           /\ UNCHANGED <<base, front, lock, left, abs>> /\ SeenNow(abs)
BaseStream == [tx |-> Text0, cur |-> base, top |-> base]
Ask2(t) == /\ ops[t] # <<>> /\ ops[t].pc = "base"
           /\ ops' = [ops EXCEPT ![t].pc = "release",
                                 ![t].r = CASE ops[t].k = "cursor" -> <<base - Handed + ops[t].n>>
                                            [] ops[t].k = "look" -> LookUp(BaseStream, Handed)
                                            [] ops[t].k = "pos" -> IF ops[t].n >= Handed THEN PosNext(BaseStream)
                                                                   ELSE LookUp(BaseStream, base - Handed + ops[t].n)]
           /\ UNCHANGED <<base, front, lock, left, abs>> /\ SeenNow(abs)

RECURSIVE TakeN(_, _, _)
TakeN(s, n, acc) == IF n = 0 \/ s.cur >= Len(s.tx) THEN [r |-> acc, s |-> s]
                    ELSE LET x == Next1(s) IN TakeN(x.s, n - 1, acc \o x.r)
Effect(t) == TakeN(abs, IF ops[t].k = "next" THEN 1 ELSE 2, <<>>)
Release(t) ==
    /\ ops[t] # <<>> /\ ops[t].pc = "release"
    /\ lock' = [readers |-> lock.readers \ {t}, writer |-> lock.writer \ {t}]
    /\ abs' = IF Writes(ops[t].k) THEN Effect(t).s ELSE abs
    /\ ops' = [ops EXCEPT ![t] = <<>>]
    /\ UNCHANGED <<base, front, left>> /\ SeenNow(abs')

Next == \E t \in Threads : Start(t) \/ Acquire(t) \/ TakeChar(t) \/ Ask1(t) \/ Ask2(t) \/ Release(t)
Spec == Init /\ [][Next]_lvars

\* what is returned is what the stream gives in the order of releases
Ordered == \A t \in Threads : ops[t] # <<>> /\ ops[t].pc = "release" =>
              IF Writes(ops[t].k) THEN ops[t].r = Effect(t).r
              ELSE ops[t].r \in seen[t]
\* when nobody is at it both agree on where the stream is
Together == lock.writer = {} /\ (\A t \in Threads : ops[t] = <<>>) => abs.cur = base - Handed + front
OneWriter == Cardinality(lock.writer) <= 1 /\ (lock.writer = {} \/ lock.readers = {})
=============================================================================
