------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Checks what runs of the command printed.  A line of the trace is a run: *)
(* its arguments and the files there are, and what it printed:             *)
(*   head - did it get to print the grammar ("grammar"), an error before   *)
(*          that ("error") or the usage only ("usage");                    *)
(*   bad  - does the head have an error;                                   *)
(*   secs - per text and file announced, ok (a tree, not an error) and tx. *)
(* Facets: head, sections (which texts were announced and in which order), *)
(* tree (tree or error and what it is).                                    *)
(***************************************************************************)
EXTENDS Command, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<l, cvars>>

Line == Trace[l]
If(c, facet) == IF c THEN {facet} ELSE {}
Report(bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"MISMATCH", Line.id, 0, bad>>)

TInit == l = 1 /\ CIdle
Begin == l <= Len(Trace) /\ Start(Line.args, Line.fs) /\ UNCHANGED l
Going == l <= Len(Trace) /\ CStep(Line.fs) /\ UNCHANGED l

SameSections == Len(Line.secs) = Len(shown)
                /\ \A j \in 1..Len(shown) : Line.secs[j].k = shown[j].k /\ Line.secs[j].v = shown[j].v
Judge ==
    /\ l <= Len(Trace) /\ Ended
    /\ LET early == stage = "usage" \/ (stage = "error" /\ shown = <<>>)
           \* of a grammar that is incomplete an error is printed, too
           none == ~Complete(G)
       IN Report(If(\/ early /\ Line.head = "grammar"
                    \/ stage = "error" /\ shown = <<>> /\ Line.head # "error"
                    \/ stage = "usage" /\ Line.head \notin {"usage", "error"}
                    \/ ~early /\ Line.head # "grammar"
                    \/ ~early /\ none /\ ~Line.bad, "head")
                 \cup If(~SameSections, "sections")
                 \cup If(SameSections /\ \E j \in 1..Len(shown) : \/ Line.secs[j].ok # shown[j].ok
                                                                  \/ shown[j].ok /\ Line.secs[j].tx # shown[j].tx, "tree"))
    /\ l' = l + 1
    /\ stage' = "start" /\ G' = EmptyGrammar /\ todo' = <<>> /\ type' = FALSE /\ shown' = <<>> /\ UNCHANGED pvars

Done == l = Len(Trace) + 1 /\ PrintT(<<"DONE", Len(Trace)>>) /\ l' = l + 1 /\ UNCHANGED cvars

TNext == Begin \/ Going \/ Judge \/ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
