------------------------------ MODULE GenRules ------------------------------
(***************************************************************************)
(* The rules of the small universes of MCRules, as written in the notation *)
(* and read again, to be evaluated by the real library on every short text.*)
(***************************************************************************)
EXTENDS MCRules, Printing, Json

GInit == r \in Universe /\ tx = <<>> /\ f = -1
\* a sequence (choice) within a sequence (choice) is written without brackets: as another rule of the universe
RECURSIVE PlainG(_)
PlainG(q) == CASE q.k = "cat" -> \A j \in 1..Len(q.rs) : q.rs[j].k # "cat" /\ PlainG(q.rs[j])
              [] q.k = "alt" -> \A j \in 1..Len(q.gs) : \A m \in 1..Len(q.gs[j]) : q.gs[j][m].k \notin {"cat", "alt"} /\ PlainG(q.gs[j][m])
              [] q.k \in {"opt", "grp", "rep"} -> PlainG(q.r)
              [] OTHER -> TRUE
\* grouping them makes them writable
RECURSIVE BracketG(_)
SubG(q) == IF q.k \in {"cat", "alt"} THEN RGrp(BracketG(q)) ELSE BracketG(q)
BracketG(q) == CASE q.k = "cat" -> [q EXCEPT !.rs = [j \in 1..Len(q.rs) |-> SubG(q.rs[j])]]
                [] q.k = "alt" -> [q EXCEPT !.gs = [j \in 1..Len(q.gs) |-> [m \in 1..Len(q.gs[j]) |-> SubG(q.gs[j][m])]]]
                [] q.k \in {"opt", "grp", "rep"} -> [q EXCEPT !.r = BracketG(q.r)]
                [] OTHER -> q
WrittenG == LET q == IF PlainG(r) THEN r ELSE BracketG(r) IN [q |-> q, d |-> Write(q, <<32>>)]
GNext == /\ f = -1 /\ f' = 0 /\ UNCHANGED <<r, tx>>
         /\ LET w == WrittenG IN PrintT("GEN " \o ToJson([d |-> w.d, k |-> r.k]))
GSpec == GInit /\ [][GNext]_mvars
\* it is that rule that is written
Readable == f = -1 => LET w == WrittenG
                          p == ParseDef(w.d)
                      IN p.ok /\ Same(p.r, w.q)
=============================================================================
