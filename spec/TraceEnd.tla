------------------------------ MODULE TraceEnd ------------------------------
(***************************************************************************)
(* Checks that every call of the real library ended with a result or an    *)
(* error.  A line of the trace has definitions and texts, and per call how *)
(* often each thing asked for ended in which way: with a result (ok), with *)
(* an error (er).  A call that did not return is not in the trace: the     *)
(* line is reported as crashed by the one who made it.                     *)
(*                                                                         *)
(* Definitions that are added one by one are judged by the notation too,   *)
(* so that a definition that is refused (and never used) is known to be a  *)
(* malformed one.  Facets: ends, define.                                   *)
(***************************************************************************)
EXTENDS Grammars, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, t,   \* line, call
          base    \* the grammar of the definitions of the line
tvars == <<l, t, base>>

Line == Trace[l]
Call == Line.calls[t]
If(c, facet) == IF c THEN {facet} ELSE {}
Report(bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"MISMATCH", Line.id, t, bad>>)

RECURSIVE AddAll(_, _, _)
AddAll(G, ds, j) == IF j > Len(ds) THEN G ELSE AddAll(AddText(G, ds[j]).G, ds, j + 1)

TInit == l = 1 /\ t = 0 /\ base = EmptyGrammar
Goto == IF t >= Len(Line.calls) THEN l' = l + 1 /\ t' = 0 ELSE l' = l /\ t' = t + 1

Begin == l <= Len(Trace) /\ t = 0 /\ base' = AddAll(EmptyGrammar, Line.defs, 1) /\ Goto

\* how something may end
Allowed(x) ==
    CASE x.w \in {"eval", "rule", "embed"} -> x.ok \/ x.er      \* a repetition can give both
      [] x.w \in {"add", "text", "parse", "validate"} -> x.ok # x.er
      [] x.w \in {"look", "reread"} -> x.ok
      [] OTHER -> FALSE
Added(o) == \E j \in 1..Len(o) : o[j].w \in {"add", "text"} /\ o[j].ok

Judge ==
    /\ l <= Len(Trace) /\ t > 0
    /\ LET a == CASE Call.op = "rule" -> AddDef(base, Call.nm, Call.def, base.last + 1).ok
                  [] Call.op = "add" -> AddText(base, Call.def).ok
                  [] Call.op = "text" -> FromText(Call.tx).ok
                  [] OTHER -> FALSE
       IN Report(If(~(Len(Call.o) > 0 /\ \A j \in 1..Len(Call.o) : Allowed(Call.o[j])), "ends")
                 \cup If(Call.op # "stream" /\ Added(Call.o) # a, "define"))
    /\ Goto /\ UNCHANGED base

Done == l > Len(Trace) /\ t = 0 /\ PrintT(<<"DONE", Len(Trace)>>) /\ l' = l + 1 /\ t' = -1 /\ UNCHANGED base

TNext == Begin \/ Judge \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
