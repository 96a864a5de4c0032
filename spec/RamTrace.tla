------------------------------- MODULE RamTrace -------------------------------
(* Conformance of RAM ports, cycle by cycle.
   Trace: [n, init (words), async, ev, kind]; event: per port <<en, we, a, d, user, rdata, check, ruser>>
   sampled before the clock edge: rdata is compared when check = 1; ruser is the
   user of the port who is told that read data arrived (0 nobody, -1: no such output),
   it has to be the user who sent a read request the cycle before.                 *)
EXTENDS Ram, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, s, req, v
T == Traces[tid]
P == DOMAIN T.ev[1]
Mem0 == [a \in 0..T.n-1 |-> T.init[a + 1]]
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ v = "run"
         /\ s = [mem |-> Mem0, rd |-> [p \in P |-> Any]]
         /\ req = [p \in P |-> 0]
Bad(e) == LET W(p) == IF T.async = 1 THEN (IF e[p][3] \in DOMAIN s.mem THEN s.mem[e[p][3]] ELSE Any) ELSE s.rd[p]
              D == {p \in P : e[p][7] = 1 /\ ~Match(W(p), e[p][6])}
              R == {p \in P : e[p][8] >= 0 /\ l > T.warm /\ e[p][8] # req[p]}
          IN IF D # {} THEN "rdata" ELSE IF R # {} THEN "rvalid" ELSE ""
Req(e) == [p \in P |-> [en |-> e[p][1] = 1, we |-> e[p][2] = 1, a |-> e[p][3], d |-> e[p][4]]]
TNext ==
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(T.ev)
     THEN v' = "ok" /\ UNCHANGED <<l, s, req>> /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE LET e == T.ev[l] c == Bad(e) IN
          IF c # ""
          THEN v' = "bad" /\ UNCHANGED <<l, s, req>>
               /\ PrintT(<<"VERDICT", tid, "bad", l, c, [event |-> e, rd |-> s.rd, req |-> req]>>)
          ELSE /\ l' = l + 1 /\ v' = "run" /\ req' = [p \in P |-> IF e[p][1] = 1 /\ e[p][2] = 0 THEN e[p][5] ELSE 0]
               /\ s' \in Step(s, Req(e))
=============================================================================
