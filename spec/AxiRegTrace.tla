----------------------------- MODULE AxiRegTrace -----------------------------
(* Recorded histories of a register file (AxiReg.tla) used by a bus master and by
   threads: every operation takes effect at one instant between its invocation
   ("b") and its answer ("e").  Processes 1 and 2 are the bus's writes and reads
   (a queue of beats each), the others are threads.
   Trace: [np, K, length, single, race, ev], event <<time, kind, process, op, result>>.
   single: the only thread polls every cycle, so that a wait may not overlook a
   value that the bus left in a register more than K cycles after the call.
   race: 1 to accept the lost bus write of AxiRegMC's Race.                        *)
EXTENDS AxiReg, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, s, pend, v
T == Traces[tid]
Idle == [q |-> << >>, res |-> << >>]
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ v = "run"
         /\ s = [i \in 0..(Traces[tid].length - 1) |-> [v |-> "0", f |-> FALSE, rv |-> "0"]]
         /\ pend = [p \in 1..Traces[tid].np |-> Idle]
Ready(p) == pend[p].q # << >> /\ Enabled(s, pend[p].q[1].op)
(* a thread waits for something that is there *)
Waits(t) == \E p \in 3..T.np : Ready(p) /\ pend[p].q[1].op[1] \in {"wait", "waitf"} /\ pend[p].q[1].at + T.K < t
Changes(o) == Apply(s, o).s # s
Overlooks(p) == /\ T.single = 1 /\ p <= 2 /\ Changes(pend[p].q[1].op)
                /\ Waits(pend[p].q[1].at)
                /\ LET n == Apply(s, pend[p].q[1].op).s
                   IN \A r \in 3..T.np : pend[r].q = << >> \/ ~Enabled(n, pend[r].q[1].op)
Take(p) == LET r == Apply(s, pend[p].q[1].op) IN
  [l |-> l, s |-> r.s, pend |-> [pend EXCEPT ![p].q = Tail(@), ![p].res = Append(@, r.res)]]
Silent == {Take(p) : p \in {q \in 1..T.np : Ready(q) /\ ~Overlooks(q)}}
Lost == IF T.race = 0 THEN {} ELSE
  {[l |-> l, s |-> Apply(s, pend[p].q[1].op).s,
    pend |-> [pend EXCEPT ![p].q = Tail(@), ![p].res = Append(@, "ok"), ![1].q = Tail(@), ![1].res = Append(@, "ok")]] :
    p \in {q \in 3..T.np : /\ Ready(q) /\ pend[q].q[1].op[1] = "waitf" /\ pend[1].q # << >>
                           /\ pend[1].q[1].op[2] = pend[q].q[1].op[2]}}
Event == LET e == T.ev[l] p == e[3] IN
  CASE e[2] = "b" -> {[l |-> l + 1, s |-> s, pend |-> [pend EXCEPT ![p].q = Append(@, [op |-> e[4], at |-> e[1]])]]}
    [] e[2] = "e" -> IF pend[p].res # << >> /\ (pend[p].res[1] = "any" \/ pend[p].res[1] = e[5])
                     THEN {[l |-> l + 1, s |-> s, pend |-> [pend EXCEPT ![p].res = Tail(@)]]} ELSE {}
    [] e[2] = "Z" -> IF \A p2 \in 1..T.np : ~Ready(p2) /\ pend[p2].res = << >> /\ (p2 <= 2 => pend[p2].q = << >>)
                     THEN {[l |-> l + 1, s |-> s, pend |-> pend]} ELSE {}
Succ == Event \cup (IF T.ev[l][2] = "b" THEN {} ELSE Silent \cup Lost)
TNext ==
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(T.ev)
     THEN v' = "ok" /\ UNCHANGED <<l, s, pend>> /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE \E S \in {Succ} :
          IF S = {}
          THEN v' = "bad" /\ UNCHANGED <<l, s, pend>>
               /\ PrintT(<<"VERDICT", tid, "bad", l, IF T.ev[l][2] = "Z" THEN "stuck" ELSE T.ev[l][4][1],
                           [event |-> T.ev[l], pend |-> pend, regs |-> s]>>)
          ELSE \E n \in S : l' = n.l /\ s' = n.s /\ pend' = n.pend /\ v' = "run"
=============================================================================
