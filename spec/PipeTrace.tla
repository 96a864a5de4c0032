----------------------------- MODULE PipeTrace -----------------------------
(* A trace is [op, D, en, ev]; an event <<rst, upd, enable, a, b, c, valid, outs>>  *)
(* are the port values before a clock edge, vectors least significant bit first,   *)
(* <<-1>> when unknown; valid = -1 when the unit has no such port.                *)
EXTENDS Pipe, TLC, Json, IOUtils
Traces == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES tid, l, p, v
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ p = PInit(Traces[tid].D) /\ v = "run"
Clause(t, o, e) ==
  IF l <= t.warm THEN ""
  ELSE IF e[7] # -1 /\ e[7] # o.v THEN "valid"
  ELSE IF ~o.k THEN ""
  ELSE IF \E i \in 1..Len(e[8]) : e[8][i] # <<>> /\ e[8][i] # o.r[i] THEN "result"
  ELSE ""
TNext ==
  LET t == Traces[tid] IN
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(t.ev)
     THEN v' = "ok" /\ UNCHANGED <<l, p>> /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE \E e \in {t.ev[l]} : \E c \in {Clause(t, Out(p), e)} :
          IF c # ""
          THEN /\ v' = "bad" /\ UNCHANGED <<l, p>>
               /\ PrintT(<<"VERDICT", tid, "bad", l, c, Out(p), e>>)
          ELSE /\ l' = l + 1 /\ v' = v
               /\ \E x \in {IF e[1] = 0 /\ e[2] = 1 THEN Result(t.op, e[4], e[5], e[6]) ELSE [known |-> FALSE, r |-> <<>>]} :
                    p' = TLCEval(PStep(p, e[1] = 1, e[2] = 1, e[3], x))
=============================================================================
