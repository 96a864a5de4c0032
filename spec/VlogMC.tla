------------------------------- MODULE VlogMC -------------------------------
(* Closed model of Vlog: every triple of small statements from every valuation, and   *)
(* the equivalences a reader or printer of the language relies on.                    *)
(* Variables: 1 = x (2 bits), 2 = y (2 bits), 3 = c, 4 = i (3 bits), 5 = clk          *)
EXTENDS Vlog, TLC
CONSTANTS Third
VARIABLES p, q, r, b
V(k) == <<"v", k>>
K(w, n) == <<"k", w, 0, [i \in 1..w |-> (n \div (2 ^ (i - 1))) % 2]>>
Es == {V(2), <<"+", V(1), K(2, 1)>>, <<"^", V(1), V(2)>>}
Ts == {V(1), V(2), <<"bit", 1, V(3)>>}
Stm == {<<k, t, e>> : k \in {"nb", "bl"}, t \in Ts, e \in Es}
       \cup {<<"bl", V(3), V(1)>>, <<"nb", <<"cat", <<V(1), V(2)>>>>, <<"cat", <<V(2), V(1)>>>>>>}
N2(n) == [i \in 1..2 |-> (n \div (2 ^ (i - 1))) % 2]
P == [w |-> <<2, 2, 1, 3, 1>>, s |-> <<0, 0, 0, 0, 0>>, d |-> <<0, 0, 0, 0, 0>>, clk |-> 5, ins |-> <<>>, outs |-> <<1, 2>>,
      init |-> <<>>, comb |-> <<>>, proc |-> <<>>]
Vals == {<<N2(x), N2(y), <<z>>, <<0, 0, 0>>, <<0>>>> : x \in 0..3, y \in 0..3, z \in 0..1}
Init == p \in Stm /\ q \in Stm /\ r = <<>> /\ b = <<>>
Next == /\ b = <<>> /\ UNCHANGED <<p, q>> /\ b' \in Vals
        /\ r' \in (IF Third THEN Stm ELSE {<<"blk", <<>>>>})

Run(ss) == LET z == ExecL(P, ss, 1, [b |-> b, q |-> <<>>]) IN Commit(z.b, z.q, 1)
Same(s, t) == Run(s) = Run(t)
c == V(3)
If == <<"if", c, <<p>>, <<q>>>>
Blocks    == Same(<<p, q, r>>, <<p, <<"blk", <<q, r>>>>>>) /\ Same(<<p, q, r>>, <<<<"blk", <<p, q>>>>, r>>)
Branches  == /\ Same(<<If, r>>, <<<<"if", <<"u!", c>>, <<q>>, <<p>>>>, r>>)
             /\ Same(<<r, If>>, <<r, <<"case", c, <<<<<<K(1, 1)>>, <<p>>>>, <<<<>>, <<q>>>>>>>>>>)
(* the default arm may be anywhere; of several matching arms the first is taken       *)
Default   == /\ Same(<<If>>, <<<<"case", c, <<<<<<>>, <<q>>>>, <<<<K(1, 1)>>, <<p>>>>>>>>>>)
             /\ Same(<<If>>, <<<<"case", c, <<<<<<K(1, 1)>>, <<p>>>>, <<<<K(1, 1), K(1, 0)>>, <<q>>>>, <<<<>>, <<r>>>>>>>>>>)
             /\ Same(<<If>>, <<<<"case", c, <<<<<<<<"kx", 1, <<1>>>>>>, <<p>>>>, <<<<<<"kx", 1, <<2>>>>>>, <<q>>>>>>>>>>)
(* labels and selector are compared at the largest width                              *)
CaseWidth == Same(<<If>>, <<<<"case", c, <<<<<<K(3, 1)>>, <<p>>>>, <<<<K(3, 5)>>, <<r>>>>, <<<<>>, <<q>>>>>>>>>>)
Chain     == Same(<<<<"if", c, <<p>>, <<>>>>, <<"if", c, <<>>, <<q>>>>>>, <<If>>)
             \/ \E s \in {p, q} : s[1] = "bl" /\ s[2] = V(3)
i == V(4)
For       == /\ Same(<<<<"for", <<"bl", i, K(3, 0)>>, <<"<", i, K(3, 3)>>, <<"bl", i, <<"+", i, K(3, 1)>>>>, <<p, q>>>>>>,
                     <<p, q, p, q, p, q, <<"bl", i, K(3, 3)>>>>)
             /\ Same(<<<<"rpt", K(3, 3), <<p, q>>>>>>, <<p, q, p, q, p, q>>)
             /\ Same(<<<<"bl", i, K(3, 2)>>, <<"while", <<"r|", i>>, <<p, <<"bl", i, <<"-", i, K(3, 1)>>>>>>>>, r>>, <<p, p, r>>)
NB(s) == s[1] = "nb"
LastWins  == (NB(p) /\ NB(q) /\ p[2] = q[2]) => Same(<<p, q>>, <<q>>)
Pending   == (NB(p) /\ NB(q) /\ p[2] = V(1) /\ q[2] = V(2)) => Same(<<p, q, r>>, <<q, p, r>>)
(* as processes: those that only schedule updates of different variables commute;     *)
(* an edge the process does not wait for leaves the state alone                       *)
Pr(k, s) == [edges |-> <<<<5, k>>>>, body |-> <<s>>]
With(ps) == [P EXCEPT !.proc = ps]
Order     == (NB(p) /\ NB(q) /\ p[2] = V(1) /\ q[2] = V(2)) =>
             /\ Rise(With(<<Pr(1, p), Pr(1, q)>>), b) = Rise(With(<<Pr(1, q), Pr(1, p)>>), b)
             /\ Rise(With(<<Pr(1, p), Pr(1, q)>>), b) = Rise(With(<<Pr(1, <<"blk", <<p, q>>>>)>>), b)
Edges     == /\ Rise(With(<<Pr(0, p)>>), b) = [b EXCEPT ![5] = <<1>>]
             /\ LET u == Rise(With(<<Pr(1, p)>>), b) IN ToLow(With(<<Pr(1, p)>>), u, <<>>) = [u EXCEPT ![5] = <<0>>]
(* continuous assignments and combinational processes are settled before an edge and  *)
(* after it: y as a wire of x is never stale                                          *)
Wire      == (\A s \in {p, q} : s[2] \in {V(1), <<"bit", 1, V(3)>>}) =>
             LET Q == [With(<<Pr(1, p), Pr(1, q)>>) EXCEPT !.comb = <<<<<<"bl", V(2), <<"^", V(1), K(2, 1)>>>>>>>>]
                 u == Rise(Q, Settle(Q, b, 1))
             IN u[2] = XorB(u[1], <<1, 0>>)

(* every law, once statements and values are chosen *)
Laws == b # <<>> =>
   /\ Blocks /\ Branches /\ Default /\ CaseWidth /\ Chain /\ For
   /\ LastWins /\ Pending /\ Order /\ Edges /\ Wire
=============================================================================
