----------------------------- MODULE VlogTrace -----------------------------
(* A trace is [P, rows, runs, want, got]: runs[k] is what rendition k of the design  *)
(* (the source, the re-emitted source, ...) showed on its outputs in each cycle;      *)
(* want/got describe its interface.                                                   *)
EXTENDS Vlog, TLC, Json, IOUtils
Traces == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES tid, l, v, b
TInit == tid \in 1..Len(Traces) /\ l = 0 /\ v = "run" /\ b = <<>>
TNext ==
  LET t == Traces[tid] IN
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l = 0
     THEN IF t.want # t.got
          THEN v' = "bad" /\ UNCHANGED <<l, b>> /\ PrintT(<<"VERDICT", tid, "bad", 0, "interface", t.want, t.got>>)
          ELSE l' = 1 /\ v' = v /\ b' = TLCEval(Start(t.P))
     ELSE IF l > Len(t.rows)
     THEN v' = "ok" /\ UNCHANGED <<l, b>> /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE \E x \in {TLCEval(ToLow(t.P, b, t.rows[l]))} : \E o \in {TLCEval(Outs(t.P, x))} :
          IF \E k \in 1..Len(t.runs) : t.runs[k][l] # o
          THEN LET k == CHOOSE k \in 1..Len(t.runs) : t.runs[k][l] # o
                   j == CHOOSE j \in 1..Len(o) : t.runs[k][l][j] # o[j] IN
               v' = "bad" /\ UNCHANGED <<l, b>>
               /\ PrintT(<<"VERDICT", tid, "bad", l, "outputs", k, j, o[j], t.runs[k][l][j]>>)
          ELSE v' = v /\ l' = l + 1 /\ b' = TLCEval(Rise(t.P, x))
=============================================================================
