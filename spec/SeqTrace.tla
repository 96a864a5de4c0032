----------------------------- MODULE SeqTrace -----------------------------
(* Conformance of recorded runs of Seq designs to SeqSem.                      *)
EXTENDS SeqSem, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, v
Bad(T, l0) ==     \* registers of cycle l0+1 that differ from the prediction
  LET a == After(T.p, T.ev, l0) IN
  {k \in 1..Len(T.p.w) : a[k] # T.ev[l0 + 1].r[k]}
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ v = "run"
TNext ==
  LET T == Traces[tid] IN
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l >= Len(T.ev)
     THEN v' = "ok" /\ UNCHANGED l /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE LET b == Bad(T, l) IN
          IF b # {}
          THEN v' = "bad" /\ UNCHANGED l
               /\ PrintT(<<"VERDICT", tid, "bad", l, "register value", b, After(T.p, T.ev, l), T.ev[l + 1].r>>)
          ELSE l' = l + 1 /\ v' = v
=============================================================================
