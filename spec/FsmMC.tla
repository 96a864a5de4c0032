------------------------------- MODULE FsmMC -------------------------------
(* Closed model: delayed-state and condition registers refine FsmSem.          *)
EXTENDS FsmSem
CONSTANTS N, Lz, Eg
VARIABLES H, s, x, d1, d2, c1, c2, e1, e2
mvars == <<H, s, x, d1, d2, c1, c2, e1, e2>>
In(k) == <<"in", k>>
Call(st, kind, cond, d, lz, eg, rhs) ==
  [st |-> st, kind |-> kind, cond |-> cond, delay |-> d, keep |-> 0, lazy |-> lz, eager |-> eg,
   jump |-> -1, els |-> -1, body |-> <<[sel |-> "all", dst |-> 1, rhs |-> rhs]>>]
Jump(st, kind, cond, dst, els) ==
  [st |-> st, kind |-> kind, cond |-> cond, delay |-> 0, keep |-> 0, lazy |-> 0, eager |-> 0,
   jump |-> dst, els |-> els, body |-> <<>>]
(* three states; the delayed action belongs to state 1 *)
P == [w |-> <<2>>, init |-> <<1>>, prevs |-> <<>>, alw |-> <<>>,
      prog |-> <<Call(1, "if", In(1), 2, Lz, Eg, In(2)),
                 Call(2, "plain", <<>>, 0, 0, 0, <<"c", 3>>),
                 Jump(0, "if", In(1), 1, -1),
                 Jump(1, "plain", <<>>, 2, -1),
                 Jump(1, "if", In(1), 1, 0),
                 Jump(2, "plain", <<>>, 0, -1)>>]
Row(rst, a, b, s0, r) == [rst |-> rst, i |-> <<a, b>>, s |-> s0, r |-> <<r>>]
Init == /\ H = <<Row(1, 0, 0, 0, 0)>> /\ s = 0 /\ x = 0 /\ d1 = 0 /\ d2 = 0
        /\ c1 = 0 /\ c2 = 0 /\ e1 = 0 /\ e2 = 0
Edge(row) ==
  IF row.rst = 1
  THEN s' = 0 /\ x' = 1 /\ d1' = 0 /\ d2' = 0 /\ c1' = 0 /\ c2' = 0 /\ e1' = 0 /\ e2' = 0
  ELSE LET a == row.i[1] b == row.i[2]
           fire == d2 = 1 /\ c2 = 1 /\ (Lz = 1 => a = 1)
       IN /\ d1' = s /\ d2' = d1
          /\ c1' = IF s = 1 THEN (IF Lz = 1 THEN 1 ELSE a) ELSE c1
          /\ c2' = IF d1 = 1 THEN c1 ELSE c2
          /\ e1' = IF s = 1 THEN b ELSE e1
          /\ e2' = IF d1 = 1 THEN e1 ELSE e2
          /\ x' = IF s = 2 THEN 3 ELSE IF fire THEN (IF Eg = 1 THEN e2 ELSE b) ELSE x
          /\ s' = CASE s = 0 -> IF a = 1 THEN 1 ELSE 0
                    [] s = 1 -> IF a = 1 THEN 1 ELSE 0
                    [] s = 2 -> 0
Next == /\ Len(H) < N
        /\ Edge(H[Len(H)])
        /\ \E rst, a \in 0..1 : \E b \in {0, 2} :
             H' = Append(H, Row(rst, a, b, NextState(P, H, Len(H)), FAfter(P, H, Len(H))[1]))
Refines == H[Len(H)].s = s /\ H[Len(H)].r[1] = x
=============================================================================
