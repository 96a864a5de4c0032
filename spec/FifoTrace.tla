----------------------------- MODULE FifoTrace -----------------------------
(* Conformance of recorded FIFO port traces to Fifo.FStep.                    *)
(* A trace is [aw, sync, ev]; each event is the port values sampled before a   *)
(* clock edge: <<rst, enq, wdata, deq, full, afull, empty, aempty, rdata, count,*)
(* space, has_space(1), has_space(2)>> *)
EXTENDS Fifo, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, v
tvars == <<tid, l, st, v>>

B(b) == IF b THEN 1 ELSE 0
Clause(t, s, e) ==
  LET n == Len(s.q) aw == t.aw
  IN IF e[1] = 1 /\ l <= t.warm THEN ""
     ELSE IF e[5] # B(Full(n, aw)) THEN "full"
     ELSE IF e[6] # B(AFull(n, aw)) THEN "almost_full"
     ELSE IF e[7] # B(Empty(n)) THEN "empty"
     ELSE IF e[8] # B(AEmpty(n)) THEN "almost_empty"
     ELSE IF t.sync = 1 /\ s.got /\ e[9] # s.rd THEN "rdata"
     ELSE IF t.sync = 0 /\ n > 0 /\ e[9] # Head(s.q) THEN "rdata"
     ELSE IF t.count = 1 /\ e[10] # n THEN "count"
     ELSE IF t.count = 1 /\ e[11] # Cap(aw) - n THEN "space"
     ELSE IF t.count = 1 /\ e[12] = 1 /\ n + 1 > Cap(aw) THEN "has_space(1)"
     ELSE IF t.count = 1 /\ e[13] = 1 /\ n + 2 > Cap(aw) THEN "has_space(2)"
     ELSE ""

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ st = FInit /\ v = "run"
TNext ==
  LET t == Traces[tid] IN
  /\ v = "run"
  /\ UNCHANGED tid
  /\ IF l > Len(t.ev)
     THEN v' = "ok" /\ UNCHANGED <<l, st>> /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE LET e == t.ev[l]
              c == Clause(t, st, e)
          IN IF c # ""
             THEN v' = "bad" /\ UNCHANGED <<l, st>>
                  /\ PrintT(<<"VERDICT", tid, "bad", l, c, st, e>>)
             ELSE /\ l' = l + 1 /\ v' = v
                  /\ st' = IF e[1] = 1 THEN FInit
                           ELSE FStep(st, t.aw, e[2] = 1, e[3], e[4] = 1)
=============================================================================
