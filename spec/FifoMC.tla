------------------------------- MODULE FifoMC -------------------------------
EXTENDS Fifo
(* Closed model used for exhaustive checking and for generating schedules.    *)
CONSTANTS AW, MaxIn
VARIABLES f, sent, recv
fvars == <<f, sent, recv>>

Init == f = FInit /\ sent = <<>> /\ recv = <<>>
Cycle(e, d) ==
  LET w == Len(sent) + 1
      g == FStep(f, AW, e, w, d)
      acc == e /\ ~Full(Len(f.q), AW)
  IN /\ f' = g
     /\ sent' = IF acc THEN Append(sent, w) ELSE sent
     /\ recv' = IF g.got THEN Append(recv, g.rd) ELSE recv
Next == \E e, d \in BOOLEAN : (e => Len(sent) < MaxIn) /\ Cycle(e, d)
Spec == Init /\ [][Next]_fvars /\ WF_fvars(Cycle(FALSE, TRUE))

TypeOK    == Len(f.q) \in 0..Cap(AW)
FifoOrder == recv \o f.q = sent            \* every accepted item once, in order
FlagsOK   == (Full(Len(f.q), AW) => AFull(Len(f.q), AW))
             /\ (Empty(Len(f.q)) => AEmpty(Len(f.q)))
             /\ ~(Full(Len(f.q), AW) /\ Empty(Len(f.q)))
Drains    == [](Len(f.q) > 0 => <>(Len(f.q) = 0 \/ Len(sent) > Len(recv)))
Progress  == \A k \in 1..MaxIn : [](Len(sent) >= k => <>(Len(recv) >= k))
=============================================================================
