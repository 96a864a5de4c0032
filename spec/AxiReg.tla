------------------------------- MODULE AxiReg -------------------------------
(* A register file shared by a bus and by threads, one operation at a time.
   State: register index -> [v: value, f: flag, rv: value after a flagged read].
   Operations <<name, index, ...>>:
     "br"  bus read;   "bw" value: bus write
     "r"   thread read; "w" value; "wf" value, reset value: write_flag
     "wait" value, polarity; "waitf" value, reset value, polarity: wait_flag
   A bus read of a flagged register returns its value, clears the flag and sets
   the register to its reset value.  Bus writes leave the flag alone.
   Indices outside the file hold nothing: reads return anything.             *)
EXTENDS Integers, Sequences, TLC

Enabled(s, o) ==
  CASE o[1] = "wait"  -> (s[o[2]].v = o[3]) = (o[4] = 1)
    [] o[1] = "waitf" -> (s[o[2]].v = o[3]) = (o[5] = 1)
    [] OTHER -> TRUE
Apply(s, o) ==     (* [s, res] *)
  LET i == o[2] IN
  IF i \notin DOMAIN s THEN [s |-> s, res |-> "any"]
  ELSE CASE o[1] = "br" -> [s |-> IF s[i].f THEN [s EXCEPT ![i].v = s[i].rv, ![i].f = FALSE] ELSE s, res |-> s[i].v]
         [] o[1] = "bw" -> [s |-> [s EXCEPT ![i].v = o[3]], res |-> "ok"]
         [] o[1] = "r"  -> [s |-> s, res |-> s[i].v]
         [] o[1] = "w"  -> [s |-> [s EXCEPT ![i].v = o[3], ![i].f = FALSE], res |-> "ok"]
         [] o[1] = "wf" -> [s |-> [s EXCEPT ![i] = [v |-> o[3], f |-> TRUE, rv |-> o[4]]], res |-> "ok"]
         [] o[1] = "wait" -> [s |-> s, res |-> "ok"]
         [] o[1] = "waitf" -> [s |-> [s EXCEPT ![i].v = o[4]], res |-> "ok"]
=============================================================================
