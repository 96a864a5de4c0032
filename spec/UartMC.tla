------------------------------ MODULE UartMC -------------------------------
(* Closed system: a user sends arbitrary bytes at arbitrary moments through a    *)
(* transmitter that keeps TxStep; the line feeds a receiver which samples each   *)
(* bit at an arbitrary fixed phase and keeps RxStep.                             *)
EXTENDS Uart, TLC
CONSTANTS W, NB, MaxBytes
VARIABLES tx, sent, rx, got, dev, phase
vars == <<tx, sent, rx, got, dev, phase>>
(* dev: a sampling receiver. n = cycles since start edge or -1, b = samples      *)
Init == /\ tx = TxInit /\ sent = <<>> /\ rx = RxInit /\ got = <<>>
        /\ dev = [n |-> -1, b |-> <<>>] /\ phase \in 0..W-1
Next ==
  \E line \in {0, 1}, acc \in BOOLEAN, byte \in 0..(2^NB - 1) :
    /\ TxLine(tx, W, NB, line) = ""
    /\ acc => Len(sent) < MaxBytes /\ Len(tx.pend) = 0
    /\ ~acc => byte = 0
    /\ tx' = TxStep(tx, W, NB, line, acc, byte)
    /\ sent' = IF acc THEN Append(sent, byte) ELSE sent
    /\ LET r == RxSee(rx, W, NB, line)
           n == IF dev.n = -1 THEN (IF line = 0 THEN 0 ELSE -1) ELSE dev.n + 1
           smp == n >= 0 /\ n % W = phase
           b == IF smp THEN Append(dev.b, line) ELSE dev.b
           full == Len(b) = NB + 2
           ok == full /\ b[1] = 0 /\ b[NB + 2] = 1
           v == IF ok THEN Val(SubSeq(b, 2, NB + 1)) ELSE 0
       IN /\ dev' = IF full THEN [n |-> -1, b |-> <<>>] ELSE [n |-> n, b |-> b]
          /\ Assert(full => ok, "framing")
          /\ Assert(RxClause(r, ok, v) = "", <<"receiver contract", r, v>>)
          /\ rx' = RxPop(r, ok)
          /\ got' = IF ok THEN Append(got, v) ELSE got
    /\ UNCHANGED phase
Spec == Init /\ [][Next]_vars
InOrder == Len(got) <= Len(sent) /\ \A i \in 1..Len(got) : got[i] = sent[i]
Complete == (TxDone(tx) /\ dev.n = -1 /\ rx.cnt = -1 /\ Len(got) < Len(sent)) => FALSE
=============================================================================
