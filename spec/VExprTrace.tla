---------------------------- MODULE VExprTrace ----------------------------
(* Each trace: an expression tree, the declared operands, and rows of operand
   values with the value the emitted Verilog produced.                       *)
EXTENDS VExpr, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, verdict
tvars == <<tid, l, verdict>>
T(i) == Traces[i]
Env(t, k) == [w |-> t.w, s |-> t.s, b |-> t.ev[k].b, d |-> t.d]
Bad(t, k) == LET x == AssignV(t.e, t.lw, Env(t, k)) IN x # <<>> /\ x # t.ev[k].o
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ verdict = "run"
TNext ==
  /\ verdict = "run"
  /\ \/ /\ l > Len(T(tid).ev)
        /\ verdict' = "ok" /\ PrintT(<<"VERDICT", tid, "ok", l, "end">>)
        /\ UNCHANGED <<tid, l>>
     \/ /\ l <= Len(T(tid).ev)
        /\ ~Bad(T(tid), l) /\ l' = l + 1 /\ UNCHANGED <<tid, verdict>>
     \/ /\ l <= Len(T(tid).ev)
        /\ Bad(T(tid), l)
        /\ verdict' = "bad"
        /\ PrintT(<<"VERDICT", tid, "bad", l, "value", AssignV(T(tid).e, T(tid).lw, Env(T(tid), l)), T(tid).ev[l].o>>)
        /\ UNCHANGED <<tid, l>>
=============================================================================
