------------------------------- MODULE MCConc -------------------------------
(***************************************************************************)
(* Several users of one grammar at the same time.  The grammar is a chain  *)
(* of rules, each a reference with marks to the next, the last a literal.  *)
(* A user evaluates a rule in steps, one per rule on the way down and one  *)
(* per rule on the way up, which is where marks are combined; the tree it  *)
(* gets is its own and it may change it (what simplification does).        *)
(*                                                                         *)
(* Whatever the steps in between, the result is that of the call alone.    *)
(* Mistake: "none"   nothing is shared but what is never changed           *)
(*          "marks"  marks of a reference are put on the rule referred to  *)
(*                   while it is evaluated                                 *)
(*          "chars"  the node of a literal shares the chars of the rule    *)
(*          "memo"   a tree once made is kept and given out again          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Users, Rules, MaxCalls, Mistake

VARIABLES mark,   \* mark of each rule, FALSE or TRUE (one kind of mark is enough)
          word,   \* chars of the literal
          memo,   \* trees kept: rule -> <<>> or <<tree>>
          st,     \* state of each user: "idle", "down", "up", "own"
          rule,   \* which rule it evaluates
          at,     \* where on the chain it is
          tree,   \* its tree: marks from rule up to the last, chars
          n       \* calls made
vars == <<mark, word, memo, st, rule, at, tree, n>>

Marks0 == [i \in 1..Rules |-> i % 2 = 0]
Word0 == <<97, 98>>
None == [m |-> <<>>, c |-> <<>>, shared |-> FALSE]

\* what a call alone gives: marks of a reference are combined with those of the rule referred to
RECURSIVE Comb(_)
Comb(i) == IF i = Rules THEN Marks0[i] ELSE Marks0[i] # Comb(i + 1)
AloneMarks(i) == [j \in 1..(Rules - i + 1) |-> Comb(i + j - 1)]
Alone(i) == [m |-> AloneMarks(i), c |-> Word0]

Init == /\ mark = Marks0 /\ word = Word0 /\ memo = [i \in 1..Rules |-> <<>>]
        /\ st = [u \in Users |-> "idle"] /\ rule = [u \in Users |-> 0] /\ at = [u \in Users |-> 0]
        /\ tree = [u \in Users |-> None] /\ n = [u \in Users |-> 0]

Call(u) == /\ st[u] = "idle" /\ n[u] < MaxCalls
           /\ \E i \in 1..Rules :
                 /\ rule' = [rule EXCEPT ![u] = i] /\ at' = [at EXCEPT ![u] = i]
                 /\ IF Mistake = "memo" /\ memo[i] # <<>>
                    THEN st' = [st EXCEPT ![u] = "own"] /\ tree' = [tree EXCEPT ![u] = [memo[i][1] EXCEPT !.shared = TRUE]]
                    ELSE st' = [st EXCEPT ![u] = "down"] /\ tree' = [tree EXCEPT ![u] = None]
           /\ n' = [n EXCEPT ![u] = n[u] + 1] /\ UNCHANGED <<mark, word, memo>>

Down(u) == /\ st[u] = "down"
           /\ IF at[u] < Rules
              THEN /\ at' = [at EXCEPT ![u] = at[u] + 1]
                   /\ mark' = IF Mistake = "marks" THEN [mark EXCEPT ![at[u] + 1] = (mark[at[u] + 1] # mark[at[u]])] ELSE mark
                   /\ UNCHANGED <<st, tree>>
              ELSE /\ st' = [st EXCEPT ![u] = "up"]
                   /\ tree' = [tree EXCEPT ![u] = [m |-> <<mark[Rules]>>, c |-> word, shared |-> Mistake = "chars"]]
                   /\ UNCHANGED <<at, mark>>
           /\ UNCHANGED <<word, memo, rule, n>>

Up(u) == /\ st[u] = "up"
         /\ IF at[u] > rule[u]
            THEN /\ at' = [at EXCEPT ![u] = at[u] - 1]
                 /\ IF Mistake = "marks"
                    THEN /\ mark' = [mark EXCEPT ![at[u]] = (mark[at[u]] # mark[at[u] - 1])]
                         /\ tree' = [tree EXCEPT ![u].m = <<tree[u].m[1]>> \o tree[u].m]
                    ELSE /\ mark' = mark
                         /\ tree' = [tree EXCEPT ![u].m = <<mark[at[u] - 1] # tree[u].m[1]>> \o tree[u].m]
                 /\ UNCHANGED <<st, memo>>
            ELSE /\ st' = [st EXCEPT ![u] = "own"]
                 /\ memo' = [memo EXCEPT ![rule[u]] = <<tree[u]>>]
                 /\ UNCHANGED <<at, mark, tree>>
         /\ UNCHANGED <<word, rule, n>>

\* the owner does as it likes with its tree
Change(u) == /\ st[u] = "own"
             /\ st' = [st EXCEPT ![u] = "idle"]
             /\ tree' = [tree EXCEPT ![u] = None]
             /\ word' = IF tree[u].shared /\ Mistake = "chars" THEN <<97, 0>> ELSE word
             /\ memo' = IF Mistake = "memo" THEN [memo EXCEPT ![rule[u]] = <<[m |-> <<>>, c |-> <<>>, shared |-> TRUE]>>] ELSE memo
             /\ UNCHANGED <<mark, rule, at, n>>

Next == \E u \in Users : Call(u) \/ Down(u) \/ Up(u) \/ Change(u)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

SameAsAlone == \A u \in Users : st[u] = "own" => [m |-> tree[u].m, c |-> tree[u].c] = Alone(rule[u])
Untouched == mark = Marks0 /\ word = Word0
AllDone == <>(\A u \in Users : st[u] = "idle" /\ n[u] = MaxCalls)
=============================================================================
