---------------------------- MODULE ThreadCtlTrace ----------------------------
(* Recorded histories of run/join/done/reset/ret against ThreadCtl.  An operation
   group is invoked (kind "b") and answers (kind "e"); its operations take effect
   one after the other inside that interval.  Children announce begin ("S") and
   end ("E") of their function.  Everything must happen within K cycles of the
   moment it becomes possible.
   Trace: [nc, np, K, ev], event <<time, kind, process or child, operations, values>>,
   operation <<name, child, args>>.                                              *)
EXTENDS ThreadCtl, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, ch, dl, pend, v
T == Traces[tid]
Idle == [ops |-> <<>>, res |-> <<>>, at |-> 0, on |-> FALSE]
Never == 100000000
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ v = "run"
         /\ ch = [c \in 1..T.nc |-> Fresh]
         /\ dl = [c \in 1..T.nc |-> Never]
         /\ pend = [p \in 1..T.np |-> Idle]
Now == T.ev[l][1]
(* nothing is overdue at time t *)
Due(p) == IF ~pend[p].on THEN Never
          ELSE IF pend[p].ops = <<>> THEN pend[p].at + T.K
          ELSE LET o == pend[p].ops[1] c == o[2]
               IN IF o[1] # "join" THEN pend[p].at + T.K
                  ELSE IF ch[c].ph # "done" THEN Never
                  ELSE (IF dl[c] > pend[p].at THEN dl[c] ELSE pend[p].at) + T.K
\* dl[c]: for "run" and "ended" the time by which the next step must happen, for "done" since when
OnTime(t) == /\ \A p \in 1..T.np : t <= Due(p)
             /\ \A c \in 1..T.nc : ch[c].ph \in {"run", "ended"} => t <= dl[c]
(* effect of operation o on the children: <<new child, result>> or {} if it must wait *)
Apply(o) ==
  LET c == ch[o[2]] IN
  CASE o[1] = "run"   -> {<<Run(c, o[3]), <<>>>>}
    [] o[1] = "reset" -> {<<Reset(c), <<>>>>}
    [] o[1] = "done"  -> {<<c, <<IF Done(c) THEN 1 ELSE 0>>>>}
    [] o[1] = "ret"   -> {<<c, <<c.ret>>>>}
    [] o[1] = "join"  -> IF CanJoin(c) THEN {<<c, <<>>>>} ELSE {}
SetCh(c, x) == [s |-> [ch EXCEPT ![c] = x],
                d |-> IF x.ph = ch[c].ph THEN dl
                      ELSE [dl EXCEPT ![c] = CASE x.ph \in {"run", "ended"} -> Now + T.K
                                               [] x.ph = "done" -> Now
                                               [] OTHER -> Never]]
(* Steps are delayed until they can matter: the operation's answer or the child's begin
   is next, another pending operation uses the same child, or time is running out. *)
Kids(p) == {pend[p].ops[i][2] : i \in 1..Len(pend[p].ops)}
Matters(p) == \/ T.ev[l][3] = p /\ T.ev[l][2] = "e"
              \/ T.ev[l][2] = "S" /\ T.ev[l][3] \in Kids(p)
              \/ \E q \in 1..T.np : q # p /\ pend[q].on /\ Kids(q) \cap Kids(p) # {}
              \/ Now > Due(p)
Silent ==
  UNION {LET o == pend[p].ops[1] IN
         {[l |-> l, ch |-> SetCh(o[2], r[1]).s, dl |-> SetCh(o[2], r[1]).d,
           pend |-> [pend EXCEPT ![p].ops = Tail(@), ![p].res = @ \o r[2], ![p].at = Now]] : r \in Apply(o)} :
         p \in {q \in 1..T.np : pend[q].on /\ pend[q].ops # <<>> /\ Matters(q)}}
  \cup {[l |-> l, ch |-> SetCh(c, Finish(ch[c])).s, dl |-> SetCh(c, Finish(ch[c])).d, pend |-> pend] :
        c \in {d \in 1..T.nc : CanFinish(ch[d]) /\ (Now > dl[d] \/ \E q \in 1..T.np : pend[q].on /\ d \in Kids(q) /\ Matters(q))}}
Event ==
  LET e == T.ev[l] k == e[2] x == e[3] IN
  IF ~OnTime(e[1]) THEN {}
  ELSE CASE k = "b" -> {[l |-> l + 1, ch |-> ch, dl |-> dl,
                         pend |-> [pend EXCEPT ![x] = [ops |-> e[4], res |-> <<>>, at |-> e[1], on |-> TRUE]]]}
         [] k = "e" -> IF pend[x].on /\ pend[x].ops = <<>> /\ pend[x].res = e[5]
                       THEN {[l |-> l + 1, ch |-> ch, dl |-> dl, pend |-> [pend EXCEPT ![x] = Idle]]} ELSE {}
         [] k = "S" -> IF CanBegin(ch[x], e[5])
                       THEN {[l |-> l + 1, ch |-> SetCh(x, Begin(ch[x])).s, dl |-> SetCh(x, Begin(ch[x])).d, pend |-> pend]}
                       ELSE {}
         [] k = "E" -> IF CanEnd(ch[x])
                       THEN {[l |-> l + 1, ch |-> SetCh(x, End(ch[x], e[5][1])).s,
                              dl |-> SetCh(x, End(ch[x], e[5][1])).d, pend |-> pend]}
                       ELSE {}
         [] k = "Z" -> {[l |-> l + 1, ch |-> ch, dl |-> dl, pend |-> pend]}
Succ == Event \cup Silent
TNext ==
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(T.ev)
     THEN v' = "ok" /\ UNCHANGED <<l, ch, dl, pend>> /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE IF Succ = {}
          THEN v' = "bad" /\ UNCHANGED <<l, ch, dl, pend>>
               /\ PrintT(<<"VERDICT", tid, "bad", l, T.ev[l][2], [event |-> T.ev[l], children |-> ch]>>)
          ELSE \E s \in Succ : l' = s.l /\ ch' = s.ch /\ dl' = s.dl /\ pend' = s.pend /\ v' = "run"
=============================================================================
