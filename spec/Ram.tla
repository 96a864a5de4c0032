--------------------------------- MODULE Ram ---------------------------------
(* A RAM with several synchronous ports.  Words are opaque; Any stands for a word that
   was never defined.  s = [mem |-> address -> word, rd |-> read data of each port].
   A request is [en, we, a, d].                                                     *)
EXTENDS Integers, Sequences, FiniteSets
Any == "x"
Writers(req, a) == {p \in DOMAIN req : req[p].en /\ req[p].we /\ req[p].a = a}
(* writes of the same cycle to one word: any of them remains *)
Mems(mem, req) ==
  LET W == {a \in DOMAIN mem : Writers(req, a) # {}}
      Pick == [W -> DOMAIN req]
  IN IF W = {} THEN {mem}
     ELSE {[a \in DOMAIN mem |-> IF a \in W THEN req[f[a]].d ELSE mem[a]] :
            f \in {f \in Pick : \A a \in W : f[a] \in Writers(req, a)}}
Reads(s, req) == [p \in DOMAIN req |-> IF ~req[p].en THEN s.rd[p]
                    ELSE IF req[p].we THEN req[p].d
                    ELSE IF req[p].a \in DOMAIN s.mem THEN s.mem[req[p].a] ELSE Any]
Step(s, req) == {[mem |-> m, rd |-> Reads(s, req)] : m \in Mems(s.mem, req)}
Match(want, got) == want = Any \/ want = got
=============================================================================
