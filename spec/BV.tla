-------------------------------- MODULE BV --------------------------------
(* Bit vectors of any width as sequences of 0/1, least significant bit
   first.  Nothing here depends on the size of TLC's integers.             *)
EXTENDS Integers, Sequences

RECURSIVE AddC(_,_,_,_,_), ZeroRun(_,_), ULtI(_,_,_), MulI(_,_,_,_), DivI(_,_,_,_,_), NatOf(_,_)

Zero(w) == [i \in 1..w |-> 0]
Ones(w) == [i \in 1..w |-> 1]
B2(x) == IF x THEN <<1>> ELSE <<0>>
Msb(a) == a[Len(a)]
(* resize: truncate, or extend with zeros / the sign bit *)
Ext(a, w, s) == IF Len(a) = w THEN a
                ELSE IF Len(a) > w THEN SubSeq(a, 1, w)
                ELSE LET f == IF s THEN Msb(a) ELSE 0 IN
                     [i \in 1..w |-> IF i <= Len(a) THEN a[i] ELSE f]
NatOf(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + 2 * NatOf(a, i + 1)
Nat2(a) == NatOf(a, 1)                  \* only for short vectors
ZeroRun(a, i) == IF i > Len(a) THEN TRUE ELSE a[i] = 0 /\ ZeroRun(a, i + 1)
IsZero(a) == ZeroRun(a, 1)
(* value of a as a number, capped: everything >= cap gives cap *)
Capped(a, cap) == IF Len(a) <= 12 THEN (IF Nat2(a) > cap THEN cap ELSE Nat2(a))
                  ELSE IF ZeroRun(a, 13) THEN (IF NatOf(SubSeq(a, 1, 12), 1) > cap THEN cap ELSE NatOf(SubSeq(a, 1, 12), 1))
                  ELSE cap
Bits(n, w) == [i \in 1..w |-> (n \div (2 ^ (i - 1))) % 2]     \* n >= 0, w <= 30

AddC(a, b, c, i, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET t == a[i] + b[i] + c IN AddC(a, b, t \div 2, i + 1, Append(acc, t % 2))
Add(a, b) == AddC(a, b, 0, 1, <<>>)
Not(a) == [i \in 1..Len(a) |-> 1 - a[i]]
Sub(a, b) == AddC(a, Not(b), 1, 1, <<>>)
Neg(a) == AddC(Zero(Len(a)), Not(a), 1, 1, <<>>)
AndB(a, b) == [i \in 1..Len(a) |-> a[i] * b[i]]
OrB(a, b) == [i \in 1..Len(a) |-> IF a[i] + b[i] > 0 THEN 1 ELSE 0]
XorB(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % 2]
Shl(a, n) == [i \in 1..Len(a) |-> IF i - n >= 1 THEN a[i - n] ELSE 0]
Shr(a, n, fill) == [i \in 1..Len(a) |-> IF i + n <= Len(a) THEN a[i + n] ELSE fill]
ULtI(a, b, i) == IF i = 0 THEN FALSE
                 ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE ULtI(a, b, i - 1)
ULt(a, b) == ULtI(a, b, Len(a))
SLt(a, b) == IF Msb(a) # Msb(b) THEN Msb(a) = 1 ELSE ULt(a, b)
Lt(a, b, s) == IF s THEN SLt(a, b) ELSE ULt(a, b)
MulI(a, b, i, acc) == IF i > Len(b) THEN acc
                      ELSE MulI(a, b, i + 1, IF b[i] = 1 THEN Add(acc, Shl(a, i - 1)) ELSE acc)
Mul(a, b) == MulI(a, b, 1, Zero(Len(a)))
(* restoring division; remainder kept one bit wider *)
DivI(a, b, i, q, r) ==
  IF i = 0 THEN [q |-> q, r |-> SubSeq(r, 1, Len(a))]
  ELSE LET r1 == <<a[i]>> \o SubSeq(r, 1, Len(r) - 1)
           bx == Append(b, 0)
       IN  IF ULt(r1, bx) THEN DivI(a, b, i - 1, <<0>> \o q, r1)
           ELSE DivI(a, b, i - 1, <<1>> \o q, Sub(r1, bx))
UDiv(a, b) == DivI(a, b, Len(a), <<>>, Zero(Len(a) + 1))
AbsB(a) == IF Msb(a) = 1 THEN Neg(a) ELSE a
(* signed division truncates towards zero, the remainder has the sign of a *)
Div(a, b, s) == IF ~s THEN UDiv(a, b).q
                ELSE LET q == UDiv(AbsB(a), AbsB(b)).q IN IF Msb(a) # Msb(b) THEN Neg(q) ELSE q
Mod(a, b, s) == IF ~s THEN UDiv(a, b).r
                ELSE LET r == UDiv(AbsB(a), AbsB(b)).r IN IF Msb(a) = 1 THEN Neg(r) ELSE r
RECURSIVE PowI(_,_), XorI(_,_)
PowI(a, n) == IF n = 0 THEN Ext(<<1>>, Len(a), FALSE) ELSE Mul(PowI(a, n - 1), a)
XorI(a, i) == IF i > Len(a) THEN 0 ELSE (a[i] + XorI(a, i + 1)) % 2
RedAnd(a) == IsZero(Not(a))
RedOr(a) == ~IsZero(a)
RedXor(a) == XorI(a, 1) = 1
=============================================================================
