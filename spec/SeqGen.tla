------------------------------- MODULE SeqGen -------------------------------
(* Enumerates every two-call chain with every combination of attributes.       *)
EXTENDS Integers, TLC, Json
Attr == {[delay |-> d, keep |-> k, lazy |-> z, eager |-> g] :
           d \in 0..2, k \in {0, 2}, z \in 0..1, g \in 0..1}
AttrN == {a \in Attr : a.delay + a.keep > 0 \/ (a.lazy = 0 /\ a.eager = 0)}
VARIABLES k1, a1, k2, a2
Init == /\ k1 \in {"plain", "if"} /\ a1 \in AttrN
        /\ k2 \in {"plain", "if", "elif", "else"} /\ a2 \in AttrN
        /\ (k1 = "plain" => k2 \in {"plain", "if"})
        /\ PrintT(<<"GEN", ToJson(<<k1, a1, k2, a2>>)>>)
Next == FALSE /\ UNCHANGED <<k1, a1, k2, a2>>
=============================================================================
