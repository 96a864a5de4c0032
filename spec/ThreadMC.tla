------------------------------ MODULE ThreadMC ------------------------------
(* Laws of the semantics over every control skeleton of ThreadGen (one initial
   state per skeleton). *)
EXTENDS ThreadGen
CONSTANT Step
VARIABLE v
Prime == 7919
MInit == \E ok \in 0..3, x \in 0..8, ik \in 0..4, a \in 0..8, b \in 0..8, y \in 0..8, oe \in 0..1, ie \in 0..1, cal \in 0..1 :
           /\ (ok + 4 * (x + 9 * (ik + 5 * (a + 9 * (b + 9 * (y + 9 * (oe + 2 * ie))))))) % Step = 0
           /\ v = <<ok, x, ik, a, b, y, oe, ie, cal>>
MNext == UNCHANGED v
G0 == [q |-> 0]
R(P) == Run(P, "main", <<>>, G0)
Sane == LET r == R(Build(v))
        IN /\ v[9] = 1 => Len(r.s.out) > 0
           /\ \A n \in 1..Len(r.s.out) : Len(r.s.out[n]) \in 1..3
\* a loop over range is a loop over the list of its values
ForAsList ==
  (v[1] = 0 /\ v[3] = 4) =>
    LET w == [v EXCEPT ![1] = 0]
        P == Build(w)
        b == P[IF v[9] = 0 THEN "main" ELSE "f"].body
        n == CHOOSE k \in DOMAIN b : b[k][1] = "for"
        L == <<"forl", b[n][2], <<I(0), I(1), I(2)>>, b[n][6], b[n][7]>>
        nm == IF v[9] = 0 THEN "main" ELSE "f"
    IN R(P).s.out = R([P EXCEPT ![nm].body[n] = L]).s.out
\* a call is its body: the unconditional single-call program prints what the body prints
LastIsEnd == LET r == R(Build(v)) o == r.s.out
             IN v[9] = 1 => /\ o[Len(o)][1] = 90
                            /\ \A n \in 1..Len(o) : (o[n][1] = 90 /\ n > 1) =>
                                  (o[n-1][1] = 80 <=> o[n][2] < 100)
=============================================================================
