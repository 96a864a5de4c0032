-------------------------------- MODULE Mutex --------------------------------
(* A mutex and the value it protects.  m = [own, val, loc]: own = 0 free, else the
   owner; loc[p] = value last read by process p.
   Op yields the set of outcomes [m, res]; an empty set means the operation waits. *)
EXTENDS Integers, Sequences
New(np, x) == [own |-> 0, val |-> x, loc |-> [p \in 1..np |-> 0]]
Op(m, p, o, args) ==
  CASE o = "lock"   -> IF m.own \in {0, p} THEN {[m |-> [m EXCEPT !.own = p], res |-> <<>>]} ELSE {}
    [] o = "try"    -> {IF m.own \in {0, p} THEN [m |-> [m EXCEPT !.own = p], res |-> <<1>>]
                        ELSE [m |-> m, res |-> <<0>>]}
    [] o = "unlock" -> {[m |-> IF m.own = p THEN [m EXCEPT !.own = 0] ELSE m, res |-> <<>>]}
    [] o = "read"   -> {[m |-> [m EXCEPT !.loc[p] = m.val], res |-> <<m.val>>]}
    [] o = "write"  -> {[m |-> [m EXCEPT !.val = m.loc[p] + args[1]], res |-> <<>>]}
    \* bits lo .. lo + n - 1 of the value become v
    [] o = "part"   -> LET lo == 2 ^ args[1] n == 2 ^ args[2] IN
                       {[m |-> [m EXCEPT !.val = m.val + (args[3] - ((m.val \div lo) % n)) * lo], res |-> <<>>]}
    [] o = "add"    -> {[m |-> [m EXCEPT !.val = m.val + args[1], !.loc[p] = m.val], res |-> <<>>]}
=============================================================================
