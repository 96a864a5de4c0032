----------------------------- MODULE EmitTrace -----------------------------
(* A trace is a sequence of events of a session over several processes.          *)
EXTENDS Emit, TLC, Json, IOUtils
Traces == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES tid, l, s, memo, v
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = Fresh /\ memo = {} /\ v = "run"
Step(e) ==
  CASE e[1] = "process" -> s' = Fresh /\ UNCHANGED memo
    [] e[1] = "reset" -> s' = Reset(s) /\ UNCHANGED memo
    [] e[1] = "build" -> s' = Build(s, e[2], e[3] = 1) /\ UNCHANGED memo
    [] e[1] = "extend" -> s' = Extend(s, e[2], e[3]) /\ UNCHANGED memo
    [] e[1] = "emit" -> \E x \in {TLCEval(Emission(s, e[2]))} : s' = x /\ memo' = memo \cup {<<Key(x, e[2]), e[3]>>}
    [] e[1] = "touch" -> s' = Touch(s, e[2], e[3]) /\ UNCHANGED memo
    [] OTHER -> UNCHANGED <<s, memo>>
Bad(e) == e[1] = "emit" /\ ~Consistent(memo, Key(Emission(s, e[2]), e[2]), e[3])
TNext ==
  LET t == Traces[tid] IN
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(t)
     THEN v' = "ok" /\ UNCHANGED <<l, s, memo>> /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE IF Bad(t[l])
     THEN v' = "bad" /\ UNCHANGED <<l, s, memo>> /\ PrintT(<<"VERDICT", tid, "bad", l, "text-changed", s.key[t[l][2]].name>>)
     ELSE v' = v /\ l' = l + 1 /\ Step(t[l])
=============================================================================
