------------------------------- MODULE HierMC -------------------------------
(* Laws of elaboration: unrolling a loop, selecting a branch, wrapping a module and *)
(* substituting a default do not change what a design computes.                    *)
EXTENDS Hier, TLC
CONSTANTS MaxW, MaxX
VARIABLES n, c, w, a, x
vars == <<n, c, w, a, x>>
K(v) == <<0, v>>
V(s) == <<1, s>>
Leaf == [kind |-> "leaf", params |-> <<<<"W", K(3)>>, <<"A", <<2, "+", V("W"), K(1)>>>>>>, locals |-> <<<<"B", <<2, "*", V("A"), K(2)>>>>>>,
         w |-> V("W"), a |-> V("A"), b |-> V("B"), body |-> <<>>]
I(args) == [t |-> "inst", m |-> 1, args |-> args]
Node(ps, body) == [kind |-> "node", params |-> ps, locals |-> <<>>, w |-> K(MaxW), a |-> K(0), b |-> K(0), body |-> body]
Args == <<<<"A", K(a)>>, <<"W", K(w)>>>>
Vals == <<<<"A", a>>, <<"W", w>>>>
Loop == Node(<<<<"N", K(2)>>>>, <<[t |-> "for", i |-> "i", n |-> V("N"), body |-> <<I(<<<<"W", K(w)>>, <<"A", <<2, "+", V("i"), K(a)>>>>>>)>>]>>)
Unrolled == Node(<<>>, [k \in 1..n |-> I(<<<<"W", K(w)>>, <<"A", K(a + k - 1)>>>>)])
Cond == Node(<<<<"C", K(0)>>>>, <<[t |-> "if", c |-> <<2, "==", V("C"), K(1)>>, body |-> <<I(Args)>>, alt |-> <<[t |-> "add", e |-> K(a)]>>]>>)
Taken == Node(<<>>, IF c = 1 THEN <<I(Args)>> ELSE <<[t |-> "add", e |-> K(a)]>>)
Wrap == [kind |-> "node", params |-> <<<<"pW", K(3)>>, <<"pA", <<2, "+", V("pW"), K(1)>>>>>>, locals |-> <<>>, w |-> V("pW"), a |-> K(0), b |-> K(0),
         body |-> <<I(<<<<"W", V("pW")>>, <<"A", V("pA")>>>>)>>]
Init == n \in 0..3 /\ c \in 0..2 /\ w \in 1..MaxW /\ a \in 0..3 /\ x \in 0..MaxX
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
E2(m, g) == EvalMod(<<Leaf, m>>, 2, g, x)
LoopLaw == E2(Loop, <<<<"N", n>>>>) = E2(Unrolled, <<>>)
IfLaw == E2(Cond, <<<<"C", c>>>>) = E2(Taken, <<>>)
WrapLaw == /\ E2(Wrap, <<<<"pW", w>>>>) = EvalMod(<<Leaf>>, 1, <<<<"W", w>>>>, x)
           /\ E2(Wrap, <<<<"pA", a>>, <<"pW", w>>>>) = EvalMod(<<Leaf>>, 1, Vals, x)
OrderLaw == EvalMod(<<Leaf>>, 1, Vals, x) = EvalMod(<<Leaf>>, 1, <<Vals[2], Vals[1]>>, x)
Width == EvalMod(<<Leaf>>, 1, Vals, x) < Pow2(w)
=============================================================================
