------------------------------ MODULE DmaTrace ------------------------------
(* Recorded programs of bus master operations against Dma.tla.
   Trace: [cfg, init, ops]; init: the RAMs' first contents.                   *)
EXTENDS Dma, IOUtils, Json

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, bad
vars == <<tid, l, st, bad>>

T == Traces[tid]
C == [bus |-> T.cfg.bus, unit |-> T.cfg.unit, aunit |-> T.cfg.aunit, rams |-> T.cfg.rams,
      round |-> {T.cfg.round[i] : i \in 1..Len(T.cfg.round)}]
TInit == /\ tid \in 1..Len(Traces)
         /\ l = 1 /\ bad = ""
         /\ st = [mem |-> [a \in {} |-> 0], ram |-> Traces[tid].init, base |-> 0]

Verdict(v, why, det) == PrintT(<<"VERDICT", tid, v, l, why, det>>)
Det(op) == IF op[1] = "memr"
           THEN LET w == MemWrong(C, st, op[2])
                    some(s) == IF Cardinality(s) > 12 THEN {CHOOSE x \in s : TRUE} ELSE s
                IN [op |-> "memory", exp |-> [extra |-> some(w.extra), wrong |-> some(w.wrong), missing |-> some(w.missing)]]
           ELSE [op |-> op, exp |-> IF op[1] = "ramr" THEN st.ram[op[2]][op[3] + 1][op[4] + 1] ELSE << >>]
TNext ==
  /\ bad = "" /\ UNCHANGED tid
  /\ IF l <= Len(T.ops)
     THEN \E n \in {OpStep(C, st, T.ops[l])} :
            /\ st' = n.st /\ bad' = n.bad /\ l' = l + 1
            /\ (n.bad # "" => Verdict("bad", n.bad, Det(T.ops[l])))
     ELSE l = Len(T.ops) + 1 /\ l' = l + 1 /\ UNCHANGED <<st, bad>> /\ Verdict("ok", "", "")
=============================================================================
