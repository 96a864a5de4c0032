------------------------------ MODULE AxiRegMC ------------------------------
(* The register mechanism: in one clock cycle the bus and a thread may both act
   on a register; of the fields both assign, the thread's assignment stays.
   Checked: the outcome of every cycle is that of some order of the two
   operations (Serial), save one recorded race; and the start/finish protocol
   (host writes 1 to register 0, thread takes it with wait_flag, answers with
   write_flag in register 1, which the host polls) runs round after round with
   nothing lost or seen twice.                                               *)
EXTENDS AxiReg
CONSTANTS Vals, Rounds, Free       (* Free: arbitrary operations; else the protocol *)
VARIABLES s, last, hpc, tpc, started, served, seen
vars == <<s, last, hpc, tpc, started, served, seen>>
Regs == {0, 1}
None == <<"none", 0>>
Put(st, i, f, x) == [st EXCEPT ![i] = [@ EXCEPT ![f] = x]]
(* the assignments of one side, computed from the old state *)
Bus(st, old, o) ==
  CASE o[1] = "br" -> IF old[o[2]].f THEN Put(Put(st, o[2], "v", old[o[2]].rv), o[2], "f", FALSE) ELSE st
    [] o[1] = "bw" -> Put(st, o[2], "v", o[3])
    [] OTHER -> st
Thr(st, o) ==
  CASE o[1] = "w" -> Put(Put(st, o[2], "v", o[3]), o[2], "f", FALSE)
    [] o[1] = "wf" -> [st EXCEPT ![o[2]] = [v |-> o[3], f |-> TRUE, rv |-> o[4]]]
    [] o[1] = "waitf" -> Put(st, o[2], "v", o[4])
    [] OTHER -> st
Cycle(b, t) == Thr(Bus(s, s, b), t)

BusOps == {<<"br", i>> : i \in Regs} \cup {<<"bw", i, v>> : i \in Regs, v \in Vals} \cup {None}
ThrOps == {<<"r", i>> : i \in Regs} \cup {<<"w", i, v>> : i \in Regs, v \in Vals}
          \cup {<<"wf", i, v, w>> : i \in Regs, v, w \in Vals}
          \cup {<<"wait", i, v, p>> : i \in Regs, v \in Vals, p \in {0, 1}}
          \cup {<<"waitf", i, v, w, p>> : i \in Regs, v, w \in Vals, p \in {0, 1}} \cup {None}

Do(st, o) == IF o = None THEN st ELSE Apply(st, o).s
En(st, o) == o = None \/ Enabled(st, o)
(* a bus write (or the reset by a flagged bus read) in the very cycle a wait_flag
   succeeds on that register is lost *)
Race(b, t) == t[1] = "waitf" /\ b[2] = t[2] /\ (b[1] = "bw" \/ (b[1] = "br" /\ s[b[2]].f))
Serial(old, b, t, new) ==
  \/ Do(Do(old, b), t) = new /\ En(Do(old, b), t) /\ (t[1] = "r" => Do(old, b)[t[2]].v = old[t[2]].v)
                       /\ (b[1] = "br" => TRUE)
  \/ Do(Do(old, t), b) = new /\ (b[1] = "br" => Do(old, t)[b[2]].v = old[b[2]].v)

Init == /\ s = [i \in Regs |-> [v |-> 0, f |-> FALSE, rv |-> 0]]
        /\ last = TRUE /\ hpc = "idle" /\ tpc = "wait" /\ started = 0 /\ served = 0 /\ seen = 0
FreeNext == \E b \in BusOps, t \in ThrOps :
  /\ Enabled(s, t) \/ t = None
  /\ s' = Cycle(b, t) /\ last' = (Race(b, t) \/ Serial(s, b, t, s'))
  /\ UNCHANGED <<hpc, tpc, started, served, seen>>

HostOp == IF hpc = "start" THEN <<"bw", 0, 1>> ELSE IF hpc = "poll" THEN <<"br", 1>> ELSE None
ThrOp == IF tpc = "wait" /\ s[0].v = 1 THEN <<"waitf", 0, 1, 0, 1>>
         ELSE IF tpc = "answer" THEN <<"wf", 1, 1, 0>> ELSE None
ProtoNext == \E hb, tb \in BOOLEAN :       (* does each side act in this cycle? *)
  LET b == IF hb THEN HostOp ELSE None
      t == IF tb THEN ThrOp ELSE None IN
  /\ s' = Cycle(b, t) /\ last' = (~Race(b, t) /\ Serial(s, b, t, s'))
  /\ hpc' = IF ~hb THEN hpc ELSE IF hpc = "idle" THEN (IF started < Rounds THEN "start" ELSE "idle")
            ELSE IF hpc = "start" THEN "poll" ELSE IF s[1].v = 1 THEN "idle" ELSE "poll"
  /\ started' = IF b[1] = "bw" THEN started + 1 ELSE started
  /\ seen' = IF b[1] = "br" /\ s[1].v = 1 THEN seen + 1 ELSE seen
  /\ tpc' = IF ~tb THEN tpc ELSE IF t[1] = "waitf" THEN "work" ELSE IF tpc = "work" THEN "answer"
            ELSE IF t[1] = "wf" THEN "wait" ELSE tpc
  /\ served' = IF t[1] = "wf" THEN served + 1 ELSE served
Next == IF Free THEN FreeNext ELSE ProtoNext
Hurry == ProtoNext /\ (hpc' # hpc \/ tpc' # tpc)
Spec == Init /\ [][Next]_vars /\ SF_vars(Hurry)
InOrder == last
OneForOne == seen <= served /\ served <= started /\ started <= seen + 1
AllServed == Free \/ <>(seen = Rounds)
=============================================================================
