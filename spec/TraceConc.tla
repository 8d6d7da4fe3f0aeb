----------------------------- MODULE TraceConc -----------------------------
(***************************************************************************)
(* Checks that a grammar gives one result per call: the trace has, per     *)
(* line, a grammar and calls with it, each with all the observations made  *)
(* of it - with a grammar of its own (alone), again and again in different *)
(* orders with the results changed by their owner (again), and by several  *)
(* goroutines at the same time (concurrent).                               *)
(*                                                                         *)
(* The result a call has is what it had when made alone, remembered as     *)
(* part of the state; every observation that follows has to agree.         *)
(* Facets: again, concurrent.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, t, j,   \* line, call, observation
          known      \* result of the call, <<>> if not observed yet
tvars == <<l, t, j, known>>

Line == Trace[l]
Call == Line.calls[t]
Obs == Call.o[j]

TInit == l = 1 /\ t = 1 /\ j = 1 /\ known = <<>>

Live == l <= Len(Trace) /\ t <= Len(Line.calls)

Observe ==
    /\ Live /\ j <= Len(Call.o)
    /\ known' = IF known = <<>> THEN <<Obs.res>> ELSE known
    /\ IF known # <<>> /\ known[1] # Obs.res
       THEN PrintT(<<"MISMATCH", Line.id, t, {Obs.how[m] : m \in 1..Len(Obs.how)}>>) ELSE TRUE
    /\ j' = j + 1 /\ UNCHANGED <<l, t>>
NextCall == Live /\ j > Len(Call.o) /\ t' = t + 1 /\ j' = 1 /\ known' = <<>> /\ UNCHANGED l
NextLine == l <= Len(Trace) /\ t > Len(Line.calls) /\ l' = l + 1 /\ t' = 1 /\ UNCHANGED <<j, known>>
Done == l = Len(Trace) + 1 /\ PrintT(<<"DONE", Len(Trace)>>) /\ l' = l + 1 /\ UNCHANGED <<t, j, known>>

TNext == Observe \/ NextCall \/ NextLine \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
