------------------------------ MODULE ThreadCtl ------------------------------
(* Control of child threads: the state of one child and the effect of each
   operation on it.  A child is
     [ph   : "idle" | "run" | "begun" | "ended" | "done",
      args : arguments of the accepted run, ret : value returned,
      runs : number of accepted runs]                                         *)
EXTENDS Integers, Sequences
Fresh == [ph |-> "idle", args |-> <<>>, ret |-> 0, runs |-> 0]
(* run(): accepted exactly when the child is idle *)
Run(c, args) == IF c.ph = "idle" THEN [c EXCEPT !.ph = "run", !.args = args, !.runs = @ + 1] ELSE c
(* first visible action of the function: it must be running with the arguments of the run *)
CanBegin(c, args) == c.ph = "run" /\ c.args = args
Begin(c) == [c EXCEPT !.ph = "begun"]
CanEnd(c) == c.ph = "begun"
End(c, ret) == [c EXCEPT !.ph = "ended", !.ret = ret]
CanFinish(c) == c.ph = "ended"
Finish(c) == [c EXCEPT !.ph = "done"]
Done(c) == c.ph = "done"
CanJoin(c) == c.ph = "done"
Reset(c) == IF c.ph = "done" THEN [c EXCEPT !.ph = "idle"] ELSE c
=============================================================================
