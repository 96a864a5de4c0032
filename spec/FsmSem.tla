------------------------------ MODULE FsmSem ------------------------------
(* Meaning of an FSM description over the history of a run (see SeqSem).       *)
(* A cycle is [rst, i, s, r]: reset, inputs, current state, registers.          *)
(* P adds to a Seq description: each call in prog belongs to a state (st) and is *)
(* either a body or a jump (jump >= 0, with an optional else-destination els);   *)
(* alw holds the state-independent calls (fsm.Always).                           *)
EXTENDS SeqSem

FActs(P, H, k, d, t) ==
  LET c == P.prog[k] IN
  /\ c.jump < 0
  /\ d \in Delays(c)
  /\ t - d >= 1
  /\ Quiet(H, t - d, t)
  /\ H[t - d].s = c.st                    \* attached to the state active d cycles ago
  /\ Holds(P, H, k, IF c.lazy = 1 THEN t ELSE t - d)

RECURSIVE FCalls(_, _, _, _, _, _)
FCalls(P, H, k, d, t, r) ==
  IF k > Len(P.prog) THEN r
  ELSE FCalls(P, H, k + 1, d, t,
              IF FActs(P, H, k, d, t)
              THEN DoBody(P, H, P.prog[k].body, P.prog[k].eager, d, t, r) ELSE r)
RECURSIVE FSweep(_, _, _, _, _)
FSweep(P, H, d, t, r) ==
  LET r1 == FCalls(P, H, 1, d, t, r)
  IN IF d = 0 THEN r1 ELSE FSweep(P, H, d - 1, t, r1)

FAfter(P, H, t) ==
  IF H[t].rst = 1
  THEN [k \in 1..Len(P.w) |-> IF P.init[k] >= 0 THEN P.init[k] ELSE H[t].r[k]]
  ELSE FSweep(P, H, MaxDelay(P), t, After([P EXCEPT !.prog = P.alw], H, t))

(* Jumps of the current state in the order declared; the last one that holds wins. *)
RECURSIVE Jumps(_, _, _, _, _)
Jumps(P, H, k, t, nxt) ==
  IF k > Len(P.prog) THEN nxt
  ELSE LET c == P.prog[k] IN
       Jumps(P, H, k + 1, t,
             IF c.jump >= 0 /\ c.st = H[t].s
             THEN IF Holds(P, H, k, t) THEN c.jump
                  ELSE IF c.els >= 0 THEN c.els ELSE nxt
             ELSE nxt)
NextState(P, H, t) == IF H[t].rst = 1 THEN 0 ELSE Jumps(P, H, 1, t, H[t].s)
=============================================================================
