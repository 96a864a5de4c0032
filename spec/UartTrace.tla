----------------------------- MODULE UartTrace -----------------------------
(* A trace is [W, ev, drained]: ev is a sequence of <<n, line, acc, byte, valid, dout>>: *)
(* n > 1 repeats a cycle without events (acc = valid = 0) n times.               *)
(* mode 1: the line is judged as a transmitter; mode 2: as a receiver; 3: both    *)
EXTENDS Uart, TLC, Json, IOUtils
Traces == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES tid, l, k, tx, rx, v
NB == 8
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ k = 1 /\ tx = TxInit /\ rx = RxInit /\ v = "run"
TNext ==
  LET t == Traces[tid] IN
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(t.ev)
     THEN LET c == IF ~TxDone(tx) /\ t.tx THEN "not-sent" ELSE IF rx.out # <<>> /\ t.rx THEN "not-received" ELSE ""
          IN /\ UNCHANGED <<l, k, tx, rx>>
             /\ v' = (IF c = "" THEN "ok" ELSE "bad")
             /\ PrintT(<<"VERDICT", tid, v', l, c, tx, rx>>)
     ELSE \E e \in {t.ev[l]} :
          \E r \in {RxSee(rx, t.W, NB, e[2])} :
          \E c \in {IF t.tx /\ TxLine(tx, t.W, NB, e[2]) # "" THEN TxLine(tx, t.W, NB, e[2])
                    ELSE IF t.rx THEN RxClause(r, e[5] = 1, e[6]) ELSE ""} :
            IF c # ""
            THEN /\ v' = "bad" /\ UNCHANGED <<l, k, tx, rx>>
                 /\ PrintT(<<"VERDICT", tid, "bad", l, c, tx, rx, e>>)
            ELSE /\ v' = v
                 /\ IF k < e[1] THEN k' = k + 1 /\ l' = l ELSE k' = 1 /\ l' = l + 1
                 /\ tx' = (IF t.tx THEN TxStep(tx, t.W, NB, e[2], e[3] = 1, e[4]) ELSE tx)
                 /\ rx' = RxPop(r, t.rx /\ e[5] = 1)
=============================================================================
