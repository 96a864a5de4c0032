------------------------------- MODULE Barrier -------------------------------
(* A barrier of n parties: b = [in |-> processes arrived in the present round,
   out |-> processes released and still inside wait()].                        *)
EXTENDS Integers, FiniteSets
New == [in |-> {}, out |-> {}]
CanArrive(b, p) == p \notin b.in \cup b.out
Arrive(b, p, n) == IF Cardinality(b.in) + 1 = n THEN [in |-> {}, out |-> b.out \cup b.in \cup {p}]
                   ELSE [b EXCEPT !.in = @ \cup {p}]
CanLeave(b, p) == p \in b.out
Leave(b, p) == [b EXCEPT !.out = @ \ {p}]
=============================================================================
