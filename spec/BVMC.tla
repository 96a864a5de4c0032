------------------------------- MODULE BVMC -------------------------------
(* The bit-vector operators agree with integer arithmetic for every operand
   of every width up to WM.                                                 *)
EXTENDS BV
CONSTANT WM
VARIABLES w, x, y
vars == <<w, x, y>>
Init == w \in 1..WM /\ x \in 0..(2 ^ w - 1) /\ y \in 0..(2 ^ w - 1)
Next == UNCHANGED vars
a == Bits(x, w)
b == Bits(y, w)
M == 2 ^ w
S(v) == IF v >= M \div 2 THEN v - M ELSE v
U(v) == v % M
AbsI(v) == IF v < 0 THEN -v ELSE v
TDiv(m, n) == IF (m < 0) # (n < 0) THEN -(AbsI(m) \div AbsI(n)) ELSE AbsI(m) \div AbsI(n)
Ok == /\ Nat2(a) = x /\ Capped(a, 3) = (IF x > 3 THEN 3 ELSE x)
      /\ Nat2(Add(a, b)) = U(x + y) /\ Nat2(Sub(a, b)) = U(x - y) /\ Nat2(Neg(a)) = U(-x)
      /\ Nat2(Mul(a, b)) = U(x * y)
      /\ (Lt(a, b, FALSE) <=> x < y) /\ (Lt(a, b, TRUE) <=> S(x) < S(y))
      /\ y # 0 => /\ Nat2(Div(a, b, FALSE)) = x \div y /\ Nat2(Mod(a, b, FALSE)) = x % y
                  /\ Nat2(Div(a, b, TRUE)) = U(TDiv(S(x), S(y)))
                  /\ Nat2(Mod(a, b, TRUE)) = U(S(x) - S(y) * TDiv(S(x), S(y)))
      /\ Nat2(Ext(a, w + 3, TRUE)) = S(x) % (8 * M) /\ Nat2(Ext(a, w + 3, FALSE)) = x
      /\ \A n \in 0..(w + 1) : /\ Nat2(Shl(a, n)) = U(x * 2 ^ n)
                               /\ Nat2(Shr(a, n, 0)) = x \div (2 ^ n)
                               /\ Nat2(Shr(a, n, Msb(a))) = U(S(x) \div (2 ^ n))
      /\ (IsZero(a) <=> x = 0) /\ (RedAnd(a) <=> x = M - 1) /\ (RedOr(a) <=> x > 0)
      /\ Nat2(PowI(a, 2)) = U(x * x)
=============================================================================
