------------------------------- MODULE SeqMC -------------------------------
(* Closed model: delay registers refine the history semantics of SeqSem.        *)
(* Two calls on one register: a delayed one (kind Lz/Eg) and its undelayed else; *)
(* next to it the mechanism a hardware designer would build.  Invariant: both    *)
(* compute the same register, for every input and reset sequence of length N.    *)
EXTENDS SeqSem
CONSTANTS D, N, Lz, Eg
VARIABLES H, x, c, e, p, q
mvars == <<H, x, c, e, p, q>>

In(k) == <<"in", k>>
P == [w |-> <<2, 2, 2>>, init |-> <<1, 0, 0>>,
      prog |-> <<
        [kind |-> "if", cond |-> In(1), delay |-> D, keep |-> 0, lazy |-> Lz, eager |-> Eg,
         body |-> <<[sel |-> "all", dst |-> 1, rhs |-> In(2)]>>],
        [kind |-> "else", cond |-> <<>>, delay |-> 0, keep |-> 0, lazy |-> 0, eager |-> 0,
         body |-> <<[sel |-> "all", dst |-> 1, rhs |-> <<"+", <<"r", 1>>, <<"c", 1>>>>]>>],
        [kind |-> "plain", cond |-> <<>>, delay |-> 0, keep |-> 0, lazy |-> 0, eager |-> 0,
         body |-> <<[sel |-> "all", dst |-> 2, rhs |-> <<"p", 1>>]>>],
        [kind |-> "plain", cond |-> <<>>, delay |-> 0, keep |-> 0, lazy |-> 0, eager |-> 0,
         body |-> <<[sel |-> "all", dst |-> 3, rhs |-> <<"p", 2>>]>>]>>,
      prevs |-> <<[src |-> In(2), n |-> D, init |-> 3, cond |-> <<>>],
                  [src |-> In(2), n |-> D, init |-> 2, cond |-> In(1)]>>]

Zero(v) == [k \in 1..D |-> v]
Row(rst, a, b, r) == [rst |-> rst, i |-> <<a, b>>, r |-> r]

(* the first cycle is a reset cycle *)
Init == /\ H = <<Row(1, 0, 0, <<0, 0, 0>>)>>
        /\ x = <<0, 0, 0>> /\ c = Zero(0) /\ e = Zero(0) /\ p = Zero(3) /\ q = Zero(2)
(* Mechanism: one clock edge closing the last cycle of H. *)
Shift(v, new) == [k \in 1..D |-> IF k = 1 THEN new ELSE v[k - 1]]
Edge(row) ==
  IF row.rst = 1
  THEN /\ x' = P.init /\ c' = Zero(0) /\ e' = Zero(0) /\ p' = Zero(3) /\ q' = Zero(2)
  ELSE LET a == row.i[1] b == row.i[2]
           fire == c[D] = 1 /\ (Lz = 1 => a = 1)
           x1 == IF fire THEN IF Eg = 1 THEN e[D] ELSE b ELSE x[1]
           x2 == IF a = 0 THEN (x[1] + 1) % 4 ELSE x1
       IN /\ x' = <<x2, p[D], q[D]>>
          /\ c' = Shift(c, IF Lz = 1 THEN 1 ELSE a)
          /\ e' = Shift(e, b)
          /\ p' = Shift(p, b)
          /\ q' = IF a = 1 THEN Shift(q, b) ELSE q
Next == /\ Len(H) < N
        /\ Edge(H[Len(H)])
        /\ \E rst, a \in 0..1 : \E b \in {0, 2} :
             H' = Append(H, Row(rst, a, b, After(P, H, Len(H))))
Refines == H[Len(H)].r = x
=============================================================================
