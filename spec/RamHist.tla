------------------------------- MODULE RamHist -------------------------------
(* Linearizability of recorded memory histories: operations of concurrent threads and
   RTL users are invoked ("b") and answer ("e") within K cycles, and act on one memory
   in between.  A bank operation addresses word a * banks + bank.
   Trace: [np, K, init, banks, ev], event <<time, kind, process, ops, values>>.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, mem, pend, v
T == Traces[tid]
Idle == [ops |-> <<>>, res |-> <<>>, at |-> 0, on |-> FALSE]
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ v = "run"
         /\ mem = [a \in 0..Len(T.init)-1 |-> T.init[a + 1]] /\ pend = [p \in 1..T.np |-> Idle]
OnTime(t) == \A p \in 1..T.np : ~pend[p].on \/ t <= pend[p].at + T.K
(* what an operation reads (as a sequence) and leaves *)
Op(o) == CASE o[1] = "read"   -> [mem |-> mem, res |-> <<mem[o[2][1]]>>]
           [] o[1] = "write"  -> [mem |-> [mem EXCEPT ![o[2][1]] = o[2][2]], res |-> <<>>]
           [] o[1] = "readb"  -> [mem |-> mem, res |-> <<mem[o[2][2] * T.banks + o[2][1]]>>]
           [] o[1] = "writeb" -> [mem |-> [mem EXCEPT ![o[2][2] * T.banks + o[2][1]] = o[2][3]], res |-> <<>>]
Same(want, got) == /\ Len(want) = Len(got)
                   /\ \A i \in DOMAIN got : want[i] = T.any \/ want[i] = got[i]
Silent == {LET r == Op(pend[p].ops[1]) IN
    [l |-> l, mem |-> r.mem, pend |-> [pend EXCEPT ![p].ops = Tail(@), ![p].res = @ \o r.res]] :
    p \in {q \in 1..T.np : pend[q].on /\ pend[q].ops # <<>>}}
Event == LET e == T.ev[l] p == e[3] IN
  IF ~OnTime(e[1]) THEN {}
  ELSE CASE e[2] = "b" -> {[l |-> l + 1, mem |-> mem,
                            pend |-> [pend EXCEPT ![p] = [ops |-> e[4], res |-> <<>>, at |-> e[1], on |-> TRUE]]]}
         [] e[2] = "e" -> IF pend[p].on /\ pend[p].ops = <<>> /\ Same(pend[p].res, e[5])
                          THEN {[l |-> l + 1, mem |-> mem, pend |-> [pend EXCEPT ![p] = Idle]]} ELSE {}
         [] e[2] = "Z" -> {[l |-> l + 1, mem |-> mem, pend |-> pend]}
Succ == Event \cup (IF T.ev[l][2] = "b" THEN {} ELSE Silent)
TNext ==
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(T.ev)
     THEN v' = "ok" /\ UNCHANGED <<l, mem, pend>> /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE IF Succ = {}
          THEN v' = "bad" /\ UNCHANGED <<l, mem, pend>>
               /\ PrintT(<<"VERDICT", tid, "bad", l, T.ev[l][2], [event |-> T.ev[l], pend |-> pend, mem |-> mem]>>)
          ELSE \E s \in Succ : l' = s.l /\ mem' = s.mem /\ pend' = s.pend /\ v' = "run"
=============================================================================
