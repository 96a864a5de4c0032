-------------------------------- MODULE Emit --------------------------------
(* Sessions of building, inspecting, simulating and emitting designs.            *)
(* The text of a design is a function of the construction steps performed since   *)
(* the last reset (or the start of the process) up to the last step on that        *)
(* design itself; nothing else - emissions, simulations, look-ups, later steps on  *)
(* other designs, the process - changes it.  A design with deferred streams takes  *)
(* numbers when it is first emitted after a step: that emission is a step too.     *)
EXTENDS Integers, Sequences, FiniteSets
Fresh == [acts |-> <<>>, key |-> <<>>]
(* handles are numbered in the order of construction over the process             *)
Build(s, d, numbered) ==
  LET a == Append(s.acts, <<"build", d>>)
  IN [acts |-> a, key |-> Append(s.key, [pos |-> Len(a), name |-> d, acts |-> a, numbered |-> numbered,
                                         fresh |-> TRUE, epoch |-> TRUE])]
Extend(s, h, g) ==
  LET a == Append(s.acts, <<"extend", s.key[h].pos, g>>)
  IN [acts |-> a, key |-> [s.key EXCEPT ![h].acts = a, ![h].fresh = TRUE]]
(* designs of before a reset can still be emitted, no longer extended              *)
Reset(s) == [acts |-> <<>>, key |-> [h \in 1..Len(s.key) |-> [s.key[h] EXCEPT !.epoch = FALSE]]]
Emission(s, h) ==
  IF s.key[h].numbered /\ s.key[h].fresh
  THEN LET a == IF s.key[h].epoch THEN Append(s.acts, <<"emit", s.key[h].pos>>)
                ELSE Append(s.acts, <<"emit-old", s.key[h].pos, s.key[h].acts>>)
       IN [acts |-> a, key |-> [s.key EXCEPT ![h].acts = a, ![h].fresh = FALSE]]
  ELSE s
(* a copy or an enclosing design that is emitted: takes numbers for itself           *)
Touch(s, h, how) ==
  IF s.key[h].numbered THEN [s EXCEPT !.acts = Append(@, <<how, s.key[h].pos, s.key[h].acts>>)] ELSE s
Key(s, h) == <<s.key[h].pos, s.key[h].name, s.key[h].acts>>
(* memo: set of <<key, text>>                                                    *)
Consistent(memo, k, t) == \A e \in memo : e[1] = k => e[2] = t
=============================================================================
