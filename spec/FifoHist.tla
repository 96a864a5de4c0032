----------------------------- MODULE FifoHist -----------------------------
(* Linearizability of thread operations on a FIFO: every recorded history of   *)
(* invocations and responses must be explained by a bounded queue on which     *)
(* each operation takes effect at one instant inside its interval.             *)
(* Trace: [cap, nth, done, ev], event <<thread, kind, op, value, flag>>,       *)
(* kind 0 = invocation, 1 = response; done = 1 iff the program ran to its end. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, q, pend, v
hvars == <<tid, l, q, pend, v>>

Idle == [op |-> "none", val |-> 0, lin |-> FALSE, res |-> 0, ok |-> 0]

(* the sequential object: set of [q, res, ok] an operation may produce *)
Apply(op, x, s, cap) ==
  LET n == Len(s) IN
  CASE op = "enq"     -> IF n < cap THEN {[q |-> Append(s, x), res |-> 0, ok |-> 1]} ELSE {}
    [] op = "deq"     -> IF n > 0 THEN {[q |-> Tail(s), res |-> Head(s), ok |-> 1]} ELSE {}
    [] op = "try_enq" -> (IF n < cap THEN {[q |-> Append(s, x), res |-> 0, ok |-> 1]} ELSE {})
                         \cup (IF n >= cap - 1 THEN {[q |-> s, res |-> 0, ok |-> 0]} ELSE {})
    [] op = "try_deq" -> IF n > 0 THEN {[q |-> Tail(s), res |-> Head(s), ok |-> 1]}
                         ELSE {[q |-> s, res |-> 0, ok |-> 0]}
    [] op = "is_empty" -> {[q |-> s, res |-> 0, ok |-> IF n = 0 THEN 1 ELSE 0]}
    [] op = "is_full"  -> {[q |-> s, res |-> 0, ok |-> IF n = cap THEN 1 ELSE 0]}
    [] op = "is_almost_empty" -> {[q |-> s, res |-> 0, ok |-> IF n <= 1 THEN 1 ELSE 0]}
    [] op = "is_almost_full"  -> {[q |-> s, res |-> 0, ok |-> IF n >= cap - 1 THEN 1 ELSE 0]}

ResMatters(op, ok) == op = "deq" \/ (op = "try_deq" /\ ok = 1)

(* Successors of the history position: consume the next event, or let a pending
   operation take effect (only needed when the next event is a response). *)
Succ(t) ==
  LET e == t.ev[l] th == e[1] + 1 IN
  IF e[2] = 0
  THEN {[l |-> l + 1, q |-> q,
         pend |-> [pend EXCEPT ![th] = [op |-> e[3], val |-> e[4], lin |-> FALSE,
                                        res |-> 0, ok |-> 0]]]}
  ELSE (IF pend[th].lin /\ pend[th].ok = e[5]
           /\ (ResMatters(pend[th].op, e[5]) => pend[th].res = e[4])
        THEN {[l |-> l + 1, q |-> q, pend |-> [pend EXCEPT ![th] = Idle]]}
        ELSE {})
       \cup UNION {
         {[l |-> l, q |-> r.q,
           pend |-> [pend EXCEPT ![k].lin = TRUE, ![k].res = r.res, ![k].ok = r.ok]] :
            r \in Apply(pend[k].op, pend[k].val, q, t.cap)} :
         k \in {j \in 1..t.nth : pend[j].op # "none" /\ ~pend[j].lin}}

HInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ q = <<>> /\ v = "run"
         /\ pend = [k \in 1..Traces[tid].nth |-> Idle]
HNext ==
  LET t == Traces[tid] IN
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(t.ev)
     THEN /\ UNCHANGED <<l, q, pend>>
          /\ IF t.done = 1
             THEN v' = "ok" /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
             ELSE v' = "bad" /\ PrintT(<<"VERDICT", tid, "bad", l, "program does not finish", q>>)
     ELSE IF Succ(t) = {}
          THEN v' = "bad" /\ UNCHANGED <<l, q, pend>>
               /\ PrintT(<<"VERDICT", tid, "bad", l, "no linearization", q, t.ev[l]>>)
          ELSE \E s \in Succ(t) :
                 l' = s.l /\ q' = s.q /\ pend' = s.pend /\ v' = "run"
=============================================================================
