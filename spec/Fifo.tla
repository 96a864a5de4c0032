-------------------------------- MODULE Fifo --------------------------------
(* The FIFO as a user sees it: a bounded queue of capacity 2^addrwidth-1 with  *)
(* an enqueue port and a dequeue port operated in the same clock cycle.        *)
EXTENDS Integers, Sequences

Cap(aw) == 2^aw - 1

(* Status outputs as a function of the number of held items. *)
Full(n, aw)   == n = Cap(aw)
AFull(n, aw)  == n >= Cap(aw) - 1
Empty(n)      == n = 0
AEmpty(n)     == n <= 1

(* One clock edge.  f is the state, e/d the request lines, w the data. *)
FInit == [q |-> <<>>, got |-> FALSE, rd |-> 0]
FStep(f, aw, e, w, d) ==
  LET n  == Len(f.q)
      ae == e /\ ~Full(n, aw)
      ad == d /\ ~Empty(n)
      q1 == IF ad THEN Tail(f.q) ELSE f.q
  IN [q   |-> IF ae THEN Append(q1, w) ELSE q1,
      got |-> ad,
      rd  |-> IF ad THEN Head(f.q) ELSE f.rd]

=============================================================================
