----------------------------- MODULE ThreadCtlMC -----------------------------
(* The handshake mechanism (state comparisons between parent and child state
   machines, one clock cycle per step) refines ThreadCtl: every cycle of the
   mechanism is a sequence of ThreadCtl operations.  Parents run arbitrary
   scripts of run / join / reset / pause, children take arbitrary time.       *)
EXTENDS ThreadCtl, FiniteSets
CONSTANTS Children, Parents, MaxRuns
VARIABLES op,     \* op[p]: the operation the parent's current state performs, with its child
          st,     \* st[c]: state of the child FSM: "start", "body0", "body1", "end"
          areg,   \* areg[c]: argument register
          nrun,   \* number of runs requested so far (bound)
          abs,    \* the specification's child
          joined, \* history: a join returned for a run that is not finished
          began   \* began[c]: number of times the function began
vars == <<op, st, areg, nrun, abs, joined, began>>
Ops == {<<"pause", 0, 0>>} \cup ({"run"} \X Children \X {1, 2}) \cup ({"join", "reset"} \X Children \X {0})
Init == /\ op = [p \in Parents |-> <<"pause", 0, 0>>]
        /\ st = [c \in Children |-> "start"] /\ areg = [c \in Children |-> 0]
        /\ nrun = 0 /\ abs = [c \in Children |-> Fresh] /\ joined = FALSE
        /\ began = [c \in Children |-> 0]
Runners(c) == {p \in Parents : op[p][1] = "run" /\ op[p][2] = c}
Resetters(c) == {p \in Parents : op[p][1] = "reset" /\ op[p][2] = c}
(* one clock cycle: every state machine moves according to the present states *)
Advance(p) == IF op[p][1] = "join" THEN st[op[p][2]] = "end" ELSE TRUE
Go == [Children -> BOOLEAN]      \* which bodies make progress in this cycle
Cycle ==
  \E go \in Go, nx \in [Parents -> Ops] :
    /\ op' = [p \in Parents |-> IF Advance(p) THEN nx[p] ELSE op[p]]
    /\ nrun' = nrun + Cardinality({p \in Parents : Advance(p) /\ op'[p][1] = "run"})
    /\ nrun' <= MaxRuns
    \* the property assumes one run request per child at a time
    /\ \A c \in Children : Cardinality({p \in Parents : op'[p][1] = "run" /\ op'[p][2] = c}) <= 1
    /\ st' = [c \in Children |->
         CASE st[c] = "start" -> IF Runners(c) # {} THEN "body0" ELSE "start"
           [] st[c] = "body0" -> IF go[c] THEN "body1" ELSE "body0"
           [] st[c] = "body1" -> IF go[c] THEN "end" ELSE "body1"
           [] st[c] = "end" -> IF Resetters(c) # {} THEN "start" ELSE "end"]
    /\ areg' = [c \in Children |-> IF st[c] = "start" /\ Runners(c) # {}
                                    THEN op[CHOOSE p \in Runners(c) : TRUE][3] ELSE areg[c]]
    /\ abs' = [c \in Children |->
         LET run(a) == IF Runners(c) # {} THEN Run(a, <<op[CHOOSE p \in Runners(c) : TRUE][3]>>) ELSE a
             rst(a) == IF Resetters(c) # {} THEN Reset(a) ELSE a
         IN CASE st[c] = "start" -> run(rst(abs[c]))
              [] st[c] = "end"   -> rst(run(abs[c]))
              [] st[c] = "body0" -> IF go[c] THEN Begin(run(rst(abs[c]))) ELSE run(rst(abs[c]))
              [] st[c] = "body1" -> IF go[c] THEN Finish(End(run(rst(abs[c])), 0)) ELSE run(rst(abs[c]))]
    /\ joined' = (joined \/ \E p \in Parents : op[p][1] = "join" /\ Advance(p) /\ ~CanJoin(abs[op[p][2]]))
    /\ began' = [c \in Children |-> IF st[c] = "body0" /\ go[c] THEN began[c] + 1 ELSE began[c]]
Next == Cycle
Match == [idle |-> "start", run |-> "body0", begun |-> "body1", done |-> "end"]
Refines == \A c \in Children : abs[c].ph \in DOMAIN Match /\ st[c] = Match[abs[c].ph]
ArgsOk == \A c \in Children : abs[c].ph \in {"run", "begun", "done"} => abs[c].args = <<areg[c]>>
JoinOk == ~joined
Once == \A c \in Children : began[c] <= abs[c].runs /\ abs[c].runs <= began[c] + 1
=============================================================================
