----------------------------- MODULE BarrierTrace -----------------------------
(* Recorded barrier histories: a wait() invoked ("b") arrives within K cycles, and once
   the round is complete it answers ("e") within K cycles; nobody answers before.
   Trace: [np, n, K, ev], event <<time, kind, process, ops, values>>.              *)
EXTENDS Barrier, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, b, due, todo, v
T == Traces[tid]
Never == 100000000
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ v = "run" /\ b = New
         /\ todo = {} /\ due = [p \in 1..T.np |-> Never]
At(p) == IF T.ev[l][1] < due[p] THEN T.ev[l][1] ELSE due[p]   \* an arrival is not later than this
OnTime(t) == \A p \in 1..T.np : t <= due[p]
(* the round's members must leave within K of its completion *)
Arrivals == {LET c == Arrive(b, p, T.n) IN
    [l |-> l, b |-> c, todo |-> todo \ {p},
     due |-> [q \in 1..T.np |-> IF q \in c.out \ b.out THEN At(p) + T.K ELSE IF q = p THEN Never ELSE due[q]]] :
    p \in {q \in todo : CanArrive(b, q)}}
Event == LET e == T.ev[l] p == e[3] IN
  IF ~OnTime(e[1]) THEN {}
  ELSE CASE e[2] = "b" -> {[l |-> l + 1, b |-> b, todo |-> todo \cup {p}, due |-> [due EXCEPT ![p] = e[1] + T.K]]}
         [] e[2] = "e" -> IF CanLeave(b, p) THEN {[l |-> l + 1, b |-> Leave(b, p), todo |-> todo, due |-> [due EXCEPT ![p] = Never]]} ELSE {}
         [] e[2] = "Z" -> {[l |-> l + 1, b |-> b, todo |-> todo, due |-> due]}
Succ == Event \cup Arrivals
TNext ==
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(T.ev)
     THEN v' = "ok" /\ UNCHANGED <<l, b, due, todo>> /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE IF Succ = {}
          THEN v' = "bad" /\ UNCHANGED <<l, b, due, todo>>
               /\ PrintT(<<"VERDICT", tid, "bad", l, T.ev[l][2], [event |-> T.ev[l], b |-> b]>>)
          ELSE \E s \in Succ : l' = s.l /\ b' = s.b /\ due' = s.due /\ todo' = s.todo /\ v' = "run"
=============================================================================
