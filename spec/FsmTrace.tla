----------------------------- MODULE FsmTrace -----------------------------
EXTENDS FsmSem, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, v
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ v = "run"
Verdict(ok, c, d) == PrintT(<<"VERDICT", tid, ok, l, c, d>>)
TNext ==
  LET T == Traces[tid] P == T.p IN
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l >= Len(T.ev)
     THEN v' = "ok" /\ UNCHANGED l /\ Verdict("ok", "", 0)
     ELSE LET s == NextState(P, T.ev, l)
              a == FAfter(P, T.ev, l)
              n == T.ev[l + 1]
          IN IF s # n.s
             THEN v' = "bad" /\ UNCHANGED l
                  /\ Verdict("bad", "state", <<T.ev[l].s, s, n.s>>)
             ELSE IF a # n.r
             THEN v' = "bad" /\ UNCHANGED l /\ Verdict("bad", "register value", <<T.ev[l].s, a, n.r>>)
             ELSE l' = l + 1 /\ v' = v
=============================================================================
