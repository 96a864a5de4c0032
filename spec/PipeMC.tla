------------------------------- MODULE PipeMC -------------------------------
(* Stage-by-stage restoring divider and carry-save-free shift-add multiplier of  *)
(* width W, driven by arbitrary operands, updates, enables and resets, refines    *)
(* Pipe: place i of the pipe and stage i of the unit always agree.               *)
EXTENDS Pipe, TLC, FiniteSets
CONSTANTS W, Signed, Kind, MaxTok
VARIABLES p, st
D == W + 2
op == [kind |-> Kind, wl |-> W, wr |-> W, wc |-> 1, sl |-> Signed, sr |-> Signed, sc |-> Signed]
V == [1..W -> {0, 1}]
Vec(f) == [i \in 1..W |-> f[i]]
Blank == [v |-> 0, sa |-> 0, sb |-> 0, dv |-> Zero(2 * W), ds |-> Zero(2 * W), q |-> Zero(2 * W)]
Init == p = PInit(D) /\ st = [i \in 1..W+1 |-> Blank] \o <<[v |-> 0, q |-> Zero(W), r |-> Zero(W)]>>
Abs1(a) == IF Signed /\ Msb(a) = 1 THEN Neg(a) ELSE a
First(a, b, en) == [v |-> en, sa |-> Msb(a), sb |-> Msb(b), dv |-> Ext(Abs1(a), 2 * W, FALSE),
                    ds |-> Shl(Ext(Abs1(b), 2 * W, FALSE), W - 1), q |-> Zero(2 * W)]
Stage(s) == LET d == Sub(s.dv, s.ds) large == Msb(d) = 0
            IN [s EXCEPT !.dv = IF large THEN d ELSE s.dv, !.ds = Shr(s.ds, 1, 0),
                         !.q = <<IF large THEN 1 ELSE 0>> \o SubSeq(s.q, 1, 2 * W - 1)]
Final(s) == LET q == SubSeq(s.q, 1, W) r == SubSeq(s.dv, 1, W)
            IN [v |-> s.v, q |-> IF Signed /\ s.sa # s.sb THEN Neg(q) ELSE q,
                r |-> IF Signed /\ s.sa = 1 THEN Neg(r) ELSE r]
Next == \E a \in V, b \in V, upd \in BOOLEAN, en \in {0, 1} :
          \E x \in {Result(op, Vec(a), Vec(b), <<0>>)} :
          /\ (upd /\ en = 1) \/ (a = Vec(Zero(W)) /\ b = Vec(Zero(W)))
          /\ en = 1 => upd /\ Cardinality({i \in 1..D-1 : p[i].v = 1}) < MaxTok
          /\ p' = TLCEval(PStep(p, FALSE, upd, en, x))
          /\ st' = TLCEval(IF upd THEN <<First(Vec(a), Vec(b), en)>> \o [i \in 1..W |-> Stage(st[i])] \o <<Final(st[W + 1])>> ELSE st)
Spec == Init /\ [][Next]_<<p, st>>
Agree == /\ Out(p).v = st[W + 2].v
         /\ Out(p).k => Out(p).r = <<st[W + 2].q, st[W + 2].r>>
View == <<p, st>>
=============================================================================
