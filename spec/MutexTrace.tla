------------------------------ MODULE MutexTrace ------------------------------
(* Linearizability and progress of recorded mutex histories.  Operation groups are
   invoked ("b") and answer ("e"); their operations take effect in order in between.
   A free mutex that somebody waits for is taken within K cycles, every other
   operation answers within K cycles.
   Trace: [np, K, val, lax, ev], event <<time, kind, process, ops, values>>.
   lax = 1 describes a known deviation: a release by a thread that does not hold the
   mutex may make a try_lock of the same moment fail although the mutex is free.    *)
EXTENDS Mutex, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, m, since, pend, v
T == Traces[tid]
Idle == [ops |-> <<>>, res |-> <<>>, at |-> 0, on |-> FALSE, rel |-> FALSE]
Never == 100000000
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ v = "run" /\ since = 0
         /\ m = New(T.np, T.val) /\ pend = [p \in 1..T.np |-> Idle]
Now == T.ev[l][1]
Waits(p) == pend[p].on /\ pend[p].ops # <<>> /\ pend[p].ops[1][1] = "lock" /\ m.own # p
Due(p) == IF ~pend[p].on \/ Waits(p) THEN Never ELSE pend[p].at + T.K
Taken == IF m.own # 0 THEN Never
         ELSE LET W == {p \in 1..T.np : Waits(p)}
              IN IF W = {} THEN Never
                 ELSE LET b == CHOOSE b \in {pend[p].at : p \in W} : \A p \in W : b <= pend[p].at
                      IN (IF b > since THEN b ELSE since) + T.K
OnTime(t) == t <= Taken /\ \A p \in 1..T.np : t <= Due(p)
Outcomes(p, o) == Op(m, p, o[1], o[2]) \cup
  (IF T.lax = 1 /\ o[1] = "try" /\ m.own = 0 /\ \E q \in 1..T.np : q # p /\ pend[q].rel
   THEN {[m |-> m, res |-> <<0>>]} ELSE {})
Silent == UNION {LET o == pend[p].ops[1] IN
    {[l |-> l, m |-> r.m, since |-> IF r.m.own = 0 /\ m.own # 0 THEN Now ELSE since,
      pend |-> [pend EXCEPT ![p].ops = Tail(@), ![p].res = @ \o r.res, ![p].at = Now]] : r \in Outcomes(p, o)} :
    p \in {q \in 1..T.np : pend[q].on /\ pend[q].ops # <<>>}}
Event == LET e == T.ev[l] p == e[3] IN
  IF ~OnTime(e[1]) THEN {}
  ELSE CASE e[2] = "b" -> {[l |-> l + 1, m |-> m, since |-> since,
                            pend |-> [pend EXCEPT ![p] = [ops |-> e[4], res |-> <<>>, at |-> e[1], on |-> TRUE,
                                       rel |-> \E i \in 1..Len(e[4]) : e[4][i][1] = "unlock"]]]}
         [] e[2] = "e" -> IF pend[p].on /\ pend[p].ops = <<>> /\ pend[p].res = e[5]
                          THEN {[l |-> l + 1, m |-> m, since |-> since, pend |-> [pend EXCEPT ![p] = Idle]]} ELSE {}
         [] e[2] = "Z" -> {[l |-> l + 1, m |-> m, since |-> since, pend |-> pend]}
Succ == Event \cup (IF T.ev[l][2] = "b" THEN {} ELSE Silent)
TNext ==
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(T.ev)
     THEN v' = "ok" /\ UNCHANGED <<l, m, since, pend>> /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE IF Succ = {}
          THEN v' = "bad" /\ UNCHANGED <<l, m, since, pend>>
               /\ PrintT(<<"VERDICT", tid, "bad", l, T.ev[l][2], [event |-> T.ev[l], m |-> m]>>)
          ELSE \E s \in Succ : l' = s.l /\ m' = s.m /\ since' = s.since /\ pend' = s.pend /\ v' = "run"
=============================================================================
