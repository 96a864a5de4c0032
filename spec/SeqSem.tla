------------------------------ MODULE SeqSem ------------------------------
(* Meaning of a sequential-logic description (Seq) over the history of a run.  *)
(* A run H is a sequence of cycles [rst, i, r]: the reset line, the inputs and  *)
(* the registers as they are during that cycle (before its closing clock edge). *)
(* A description P is [w, init, prog, prevs]: register widths, initial values   *)
(* (-1 = none), the added calls in order, and the Prev() values used.           *)
(* Nothing here mentions delay registers: delays look back into the history.    *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise

Bool(b) == IF b THEN 1 ELSE 0
Fld(v, lo, hi) == (v \div 2^lo) % 2^(hi - lo + 1)
SetFld(v, lo, hi, x) ==
  LET keep == v - Fld(v, lo, hi) * 2^lo
  IN keep + (x % 2^(hi - lo + 1)) * 2^lo

Quiet(H, a, b) == \A k \in a..b : H[k].rst = 0     \* no reset in cycles a..b

RECURSIVE Ev(_, _, _, _)
RECURSIVE PrevCond(_, _, _, _, _)
(* value of v at the n-th most recent enabled cycle before k+1 *)
PrevCond(P, H, p, k, n) ==
  IF k < 1 THEN p.init
  ELSE IF H[k].rst = 1 THEN p.init
  ELSE IF Ev(p.cond, P, H, k) # 0
       THEN IF n = 1 THEN Ev(p.src, P, H, k) ELSE PrevCond(P, H, p, k - 1, n - 1)
       ELSE PrevCond(P, H, p, k - 1, n)
PrevVal(P, H, p, t) ==
  IF p.n = 0 THEN Ev(p.src, P, H, t)
  ELSE IF p.cond # <<>> THEN PrevCond(P, H, p, t - 1, p.n)
  ELSE IF t - p.n < 1 THEN p.init
  ELSE IF ~Quiet(H, t - p.n, t - 1) THEN p.init
  ELSE Ev(p.src, P, H, t - p.n)

Ev(e, P, H, t) ==
  CASE e[1] = "c"  -> e[2]
    [] e[1] = "in" -> H[t].i[e[2]]
    [] e[1] = "r"  -> H[t].r[e[2]]
    [] e[1] = "p"  -> PrevVal(P, H, P.prevs[e[2]], t)
    [] e[1] = "st" -> Bool(H[t].s = e[2])          \* state tests (FsmSem)
    [] e[1] = "bit" -> Fld(Ev(e[2], P, H, t), e[3], e[3])
    [] e[1] = "not" -> Bool(Ev(e[2], P, H, t) = 0)
    [] e[1] = "+"  -> Ev(e[2], P, H, t) + Ev(e[3], P, H, t)
    [] e[1] = "&"  -> Ev(e[2], P, H, t) & Ev(e[3], P, H, t)
    [] e[1] = "|"  -> Ev(e[2], P, H, t) | Ev(e[3], P, H, t)
    [] e[1] = "^"  -> Ev(e[2], P, H, t) ^^ Ev(e[3], P, H, t)
    [] e[1] = "==" -> Bool(Ev(e[2], P, H, t) = Ev(e[3], P, H, t))
    [] e[1] = "<"  -> Bool(Ev(e[2], P, H, t) < Ev(e[3], P, H, t))
    [] e[1] = "&&" -> Bool(Ev(e[2], P, H, t) # 0 /\ Ev(e[3], P, H, t) # 0)
    [] e[1] = "||" -> Bool(Ev(e[2], P, H, t) # 0 \/ Ev(e[3], P, H, t) # 0)

-----------------------------------------------------------------------------
(* Conditions.  A call is [kind, cond, delay, keep, lazy, eager, body]; kinds   *)
(* "if"/"elif"/"else" form chains, "plain" is unconditional.                     *)
RECURSIVE ChainNeg(_, _, _, _)
(* no earlier arm of the chain that call k continues holds in cycle t *)
ChainNeg(P, H, k, t) ==
  LET c == P.prog[k - 1]
  IN Ev(c.cond, P, H, t) = 0
     /\ (c.kind = "if" \/ ChainNeg(P, H, k - 1, t))
Holds(P, H, k, t) ==
  LET c == P.prog[k] IN
  CASE c.kind = "plain" -> TRUE
    [] c.kind = "if"    -> Ev(c.cond, P, H, t) # 0
    [] c.kind = "elif"  -> ChainNeg(P, H, k, t) /\ Ev(c.cond, P, H, t) # 0
    [] c.kind = "else"  -> ChainNeg(P, H, k, t)

Delays(c) == IF c.keep = 0 THEN {c.delay} ELSE c.delay..(c.delay + c.keep - 1)
MaxDelay(P) == LET S == UNION {Delays(P.prog[k]) : k \in 1..Len(P.prog)} \cup {0}
               IN CHOOSE d \in S : \A x \in S : x <= d

(* Does call k, delayed by d, act in cycle t? *)
Acts(P, H, k, d, t) ==
  LET c == P.prog[k] IN
  /\ d \in Delays(c)
  /\ t - d >= 1
  /\ Quiet(H, t - d, t)
  /\ Holds(P, H, k, IF c.lazy = 1 THEN t ELSE t - d)

Const(e) == e[1] = "c"
RECURSIVE DoBody(_, _, _, _, _, _, _)
DoOne(P, H, a, eager, d, t, r) ==
  LET te == IF eager = 1 THEN t - d ELSE t
      x  == Ev(a.rhs, P, H, te) % 2^(P.w[a.dst])
  IN IF a.sel = "all" THEN [r EXCEPT ![a.dst] = x]
     ELSE IF a.sel = "slice"
          THEN [r EXCEPT ![a.dst] = SetFld(@, a.lo, a.hi, x)]
     ELSE LET i == Ev(a.idx, P, H, t)
          IN IF i >= P.w[a.dst] THEN r
             ELSE [r EXCEPT ![a.dst] = SetFld(@, i, i, x)]
DoBody(P, H, b, eager, d, t, r) ==
  IF b = <<>> THEN r
  ELSE LET a == Head(b)
           r1 == IF a.sel = "if"
                 THEN IF Ev(a.cond, P, H, t) # 0
                      THEN DoBody(P, H, a.then, 0, d, t, r)
                      ELSE DoBody(P, H, a.else, 0, d, t, r)
                 ELSE DoOne(P, H, a, eager, d, t, r)
       IN DoBody(P, H, Tail(b), eager, d, t, r1)

(* All actions of cycle t: larger delays first, then in the order added, so that *)
(* among equal delays the last added wins and otherwise the shorter delay wins.  *)
RECURSIVE Calls(_, _, _, _, _, _)
Calls(P, H, k, d, t, r) ==
  IF k > Len(P.prog) THEN r
  ELSE Calls(P, H, k + 1, d, t,
             IF Acts(P, H, k, d, t)
             THEN DoBody(P, H, P.prog[k].body, P.prog[k].eager, d, t, r) ELSE r)
RECURSIVE Sweep(_, _, _, _, _)
Sweep(P, H, d, t, r) ==
  LET r1 == Calls(P, H, 1, d, t, r)
  IN IF d = 0 THEN r1 ELSE Sweep(P, H, d - 1, t, r1)

(* Registers in the cycle after t. *)
After(P, H, t) ==
  IF H[t].rst = 1
  THEN [k \in 1..Len(P.w) |-> IF P.init[k] >= 0 THEN P.init[k] ELSE H[t].r[k]]
  ELSE Sweep(P, H, MaxDelay(P), t, H[t].r)
=============================================================================
