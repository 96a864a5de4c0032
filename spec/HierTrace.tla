----------------------------- MODULE HierTrace -----------------------------
(* A trace is [D, ev]: an event is <<given, input, output>>, output -1 if unknown.  *)
EXTENDS Hier, TLC, Json, IOUtils
Traces == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES tid, l, v
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ v = "run"
TNext ==
  LET t == Traces[tid] IN
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(t.ev)
     THEN v' = "ok" /\ UNCHANGED l /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE \E e \in {t.ev[l]} : \E r \in {TLCEval(EvalMod(t.D, Len(t.D), e[1], e[2]))} :
          IF e[3] # r
          THEN v' = "bad" /\ UNCHANGED l /\ PrintT(<<"VERDICT", tid, "bad", l, "output", r, e>>)
          ELSE v' = v /\ l' = l + 1
=============================================================================
