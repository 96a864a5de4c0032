------------------------------ MODULE BarrierMC ------------------------------
(* The counter / done pulse mechanism, cycle by cycle, refines Barrier: the counter is
   incremented under a mutex, reaching n clears it and raises done for one cycle; a
   process leaves wait() when it sees done in its waiting state.  At most Parties
   processes use the barrier.                                                     *)
EXTENDS Barrier
CONSTANTS N, Procs
VARIABLES pc, count, done, abs, bad
vars == <<pc, count, done, abs, bad>>
Init == /\ pc = [p \in Procs |-> "out"] /\ count = 0 /\ done = 0 /\ abs = New /\ bad = FALSE
\* one process at a time goes through lock .. unlock; which one is arbitrary
Holder == {p \in Procs : pc[p] \in {"inc", "unl"}}
Cycle == \E get \in Procs \cup {0}, ent \in [Procs -> BOOLEAN] :
  /\ (IF get = 0 THEN TRUE ELSE pc[get] = "lock" /\ Holder = {})
  /\ LET inc == {p \in Procs : pc[p] = "inc"}
         go  == {p \in Procs : pc[p] = "wait" /\ done = 1}
         A   == IF inc = {} THEN abs ELSE Arrive(abs, CHOOSE p \in inc : TRUE, N)
     IN /\ pc' = [p \in Procs |-> CASE pc[p] = "out" -> IF ent[p] THEN "lock" ELSE "out"
                                    [] pc[p] = "lock" -> IF p = get THEN "inc" ELSE "lock"
                                    [] pc[p] = "inc" -> "unl"
                                    [] pc[p] = "unl" -> "wait"
                                    [] pc[p] = "wait" -> IF done = 1 THEN "out" ELSE "wait"]
        /\ count' = IF inc # {} THEN count + 1 ELSE IF count = N THEN 0 ELSE count
        /\ done' = IF count = N THEN 1 ELSE 0
        /\ abs' = [A EXCEPT !.out = @ \ go]
        /\ bad' = (bad \/ ~(go \subseteq A.out))
Next == Cycle
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
        /\ \A p \in Procs : WF_vars(Next /\ pc[p] = "lock" /\ pc'[p] = "inc")
NoEarlyLeave == ~bad
\* a released process is on its way out, nobody released is left waiting for another round
Inside == \A p \in Procs : (pc[p] = "wait" <=> p \in abs.in \cup abs.out) \/ pc[p] \in {"unl"}
Counts == count = N \/ count = Cardinality(abs.in)
NotLeftBehind == \A p \in Procs : p \in abs.out ~> p \notin abs.out
=============================================================================
