------------------------------- MODULE MutexMC -------------------------------
(* The lock register / owner id mechanism: a request state, a verify state, several
   requests in one cycle resolved in favour of any one of them, release that clears
   the register when the id matches (also of a mutex that is already free).
   Each cycle must be explained by operations of Mutex.                           *)
EXTENDS Mutex, FiniteSets
CONSTANT N, Stray        \* Stray: threads may release a mutex they do not hold
VARIABLES pc, reg, id, abs, ok
vars == <<pc, reg, id, abs, ok>>
P == 1..N
Init == /\ pc = [p \in P |-> "idle"] /\ reg = 0 /\ id = 0 /\ abs = New(N, 0) /\ ok = TRUE
Req == {p \in P : pc[p] \in {"try", "ttry"}}
Rel == {p \in P : pc[p] = "rel" /\ id = p}
\* winner of the registers in this cycle; a release may come before or after it in the process
Win == IF reg = 0 /\ Req # {} THEN Req ELSE {0}
NextPc(p, c) ==
  CASE pc[p] = "idle" -> c[p]
    [] pc[p] = "try" -> IF reg = 0 \/ id = p THEN "ver" ELSE "try"
    [] pc[p] = "ver" -> IF reg = 1 /\ id = p THEN "crit" ELSE "try"
    [] pc[p] = "ttry" -> "tver"
    [] pc[p] = "tver" -> IF reg = 1 /\ id = p THEN "crit" ELSE "idle"
    [] pc[p] = "crit" -> IF c[p] = "go" THEN "rel" ELSE "crit"
    [] pc[p] = "rel" -> "idle"
Choice == [P -> {"idle", "try", "ttry", "go"} \cup (IF Stray THEN {"rel"} ELSE {})]
Cycle == \E w \in Win, c \in Choice, late \in BOOLEAN :
  /\ \A p \in P : pc[p] = "idle" => c[p] # "go"
  /\ pc' = [p \in P |-> NextPc(p, c)]
  /\ id' = IF w # 0 THEN w ELSE id
  /\ reg' = IF w # 0 /\ ~(late /\ Rel # {}) THEN 1
            ELSE IF Rel # {} THEN 0 ELSE reg
  \* the abstract owner: the request that wins takes it, a release by the owner frees it
  /\ abs' = IF Rel # {} /\ abs.own \in Rel THEN [abs EXCEPT !.own = 0]
            ELSE IF w # 0 /\ reg' = 1 THEN [abs EXCEPT !.own = w] ELSE abs
  \* a successful verification is a correct answer of lock / try_lock
  /\ ok' = (ok /\ \A p \in P : (pc[p] \in {"ver", "tver"} /\ reg = 1 /\ id = p) => abs.own = p)
Next == Cycle
Fair == WF_vars(Next) /\ \A p \in P : WF_vars(Next /\ pc[p] = "crit" /\ pc'[p] = "rel")
Spec == Init /\ [][Next]_vars /\ Fair
Exclusion == Cardinality({p \in P : pc[p] = "crit"}) <= 1
Agree == (reg = 1 => abs.own = id) /\ (reg = 0 => abs.own = 0) /\ \A p \in P : pc[p] = "crit" => abs.own = p
Answers == ok
Progress == (\E p \in P : pc[p] = "try" /\ ~Stray) ~> (\E p \in P : pc[p] = "crit")
=============================================================================
