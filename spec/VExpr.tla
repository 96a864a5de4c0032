------------------------------ MODULE VExpr -------------------------------
(* Value of a Verilog-2005 expression (IEEE 1364-2005 clause 5): widths and
   signs are determined bottom up, then pushed down to the context-determined
   operands, then evaluated.

   A node is a tuple <<tag, ...>>.  An environment is a record with sequences
   w (width), s (signed), b (bits) of the declared variables.
   The empty sequence stands for a value the language leaves unspecified
   (division by zero, a select out of range).                              *)
EXTENDS BV

Arith == {"+", "-", "*", "/", "%", "&", "|", "^", "~^"}
Cmp   == {"<", "<=", ">", ">=", "==", "!=", "===", "!=="}
Logic == {"&&", "||"}
Shift == {"<<", ">>", ">>>", "**"}
Un    == {"u+", "u-", "u~"}
Red   == {"r&", "r~&", "r|", "r~|", "r^", "r~^", "u!"}

Mx(a, b) == IF a > b THEN a ELSE b
RECURSIVE W(_,_), S(_,_), Ev(_,_,_,_), CatW(_,_,_), CatV(_,_,_)

(* <<"v", k>>  <<"k", width, signed, bits>>  <<op, a>>  <<op, a, b>>
   <<"?", c, t, f>>  <<"cat", <<e1, .. en>>>>  (e1 most significant)
   <<"rep", n, e>>  <<"bit", k, e>>  <<"sl", k, msb, lsb>>  <<"mem", k, e>>
   <<"$s", e>>  <<"$u", e>> ; env.d[k] = number of words (0: not a memory),
   env.b[k] is then a sequence of words                                     *)
W(e, env) ==
  LET t == e[1] IN
  CASE t = "v" -> env.w[e[2]]
    [] t = "k" -> e[2]
    [] t \in Arith -> Mx(W(e[2], env), W(e[3], env))
    [] t \in Cmp \cup Logic \cup Red -> 1
    [] t \in Shift \cup Un -> W(e[2], env)
    [] t = "?" -> Mx(W(e[3], env), W(e[4], env))
    [] t = "cat" -> CatW(e[2], env, 1)
    [] t = "rep" -> e[2] * W(e[3], env)
    [] t = "bit" -> 1
    [] t = "sl" -> e[3] - e[4] + 1
    [] t = "mem" -> env.w[e[2]]
    [] t \in {"$s", "$u"} -> W(e[2], env)
CatW(es, env, i) == IF i > Len(es) THEN 0 ELSE W(es[i], env) + CatW(es, env, i + 1)

S(e, env) ==
  LET t == e[1] IN
  CASE t = "v" -> env.s[e[2]] = 1
    [] t = "k" -> e[3] = 1
    [] t \in Arith -> S(e[2], env) /\ S(e[3], env)
    [] t \in Shift \cup Un -> S(e[2], env)
    [] t = "?" -> S(e[3], env) /\ S(e[4], env)
    [] t = "mem" -> env.s[e[2]] = 1
    [] t = "$s" -> TRUE
    [] OTHER -> FALSE

Self(e, env) == Ev(e, W(e, env), S(e, env), env)

Ev(e, w, s, env) ==
  LET t == e[1]
      L == Ev(e[2], w, s, env)
      R == Ev(e[3], w, s, env)
      cw == Mx(W(e[2], env), W(e[3], env))
      cs == S(e[2], env) /\ S(e[3], env)
      CL == Ev(e[2], cw, cs, env)
      CR == Ev(e[3], cw, cs, env)
      SA == Self(e[2], env)
      SB == Self(e[3], env)
      One(b) == Ext(B2(b), w, FALSE)
  IN
  CASE t = "v" -> Ext(env.b[e[2]], w, s)
    [] t = "k" -> Ext(e[4], w, s)
    [] t \in Arith ->
         IF L = <<>> \/ R = <<>> THEN <<>>
         ELSE (CASE t = "+" -> Add(L, R) [] t = "-" -> Sub(L, R) [] t = "*" -> Mul(L, R)
                [] t = "/" -> IF IsZero(R) THEN <<>> ELSE Div(L, R, s)
                [] t = "%" -> IF IsZero(R) THEN <<>> ELSE Mod(L, R, s)
                [] t = "&" -> AndB(L, R) [] t = "|" -> OrB(L, R) [] t = "^" -> XorB(L, R)
                [] t = "~^" -> Not(XorB(L, R)))
    [] t \in Cmp ->
         IF CL = <<>> \/ CR = <<>> THEN <<>>
         ELSE One(CASE t = "<" -> Lt(CL, CR, cs) [] t = "<=" -> ~Lt(CR, CL, cs)
                    [] t = ">" -> Lt(CR, CL, cs) [] t = ">=" -> ~Lt(CL, CR, cs)
                    [] t \in {"==", "==="} -> CL = CR [] OTHER -> CL # CR)
    [] t \in Logic ->
         IF SA = <<>> \/ SB = <<>> THEN <<>>
         ELSE One(IF t = "&&" THEN RedOr(SA) /\ RedOr(SB) ELSE RedOr(SA) \/ RedOr(SB))
    [] t \in Shift ->
         IF L = <<>> \/ SB = <<>> THEN <<>>
         ELSE LET n == Capped(SB, w) IN
              (CASE t = "<<" -> Shl(L, n) [] t = ">>" -> Shr(L, n, 0)
                [] t = ">>>" -> Shr(L, n, IF s THEN Msb(L) ELSE 0)
                [] t = "**" -> IF S(e[3], env) /\ Msb(SB) = 1 THEN <<>> ELSE PowI(L, Capped(SB, 4000)))
    [] t \in Un -> IF L = <<>> THEN <<>>
                   ELSE (CASE t = "u+" -> L [] t = "u-" -> Neg(L) [] t = "u~" -> Not(L))
    [] t \in Red ->
         IF SA = <<>> THEN <<>>
         ELSE One(CASE t = "r&" -> RedAnd(SA) [] t = "r~&" -> ~RedAnd(SA)
                    [] t = "r|" -> RedOr(SA) [] t = "r~|" -> ~RedOr(SA)
                    [] t = "r^" -> RedXor(SA) [] t = "r~^" -> ~RedXor(SA)
                    [] t = "u!" -> ~RedOr(SA))
    [] t = "?" -> IF SA = <<>> THEN <<>>
                  ELSE IF RedOr(SA) THEN R ELSE Ev(e[4], w, s, env)
    [] t = "cat" -> LET v == CatV(e[2], env, 1) IN IF v = <<>> THEN <<>> ELSE Ext(v, w, FALSE)
    [] t = "rep" -> IF SB = <<>> THEN <<>>
                    ELSE Ext([i \in 1..(e[2] * Len(SB)) |-> SB[((i - 1) % Len(SB)) + 1]], w, FALSE)
    [] t = "bit" -> IF SB = <<>> THEN <<>>
                    ELSE LET p == Capped(SB, env.w[e[2]]) IN
                         IF p >= env.w[e[2]] \/ (S(e[3], env) /\ Msb(SB) = 1) THEN <<>> ELSE Ext(<<env.b[e[2]][p + 1]>>, w, FALSE)
    [] t = "sl" -> Ext(SubSeq(env.b[e[2]], e[4] + 1, e[3] + 1), w, FALSE)
    [] t = "mem" -> IF SB = <<>> THEN <<>>
                    ELSE LET p == Capped(SB, env.d[e[2]]) IN
                         IF p >= env.d[e[2]] \/ (S(e[3], env) /\ Msb(SB) = 1) THEN <<>> ELSE Ext(env.b[e[2]][p + 1], w, s)
    [] t = "$s" -> IF SA = <<>> THEN <<>> ELSE Ext(SA, w, s)
    [] t = "$u" -> IF SA = <<>> THEN <<>> ELSE Ext(SA, w, s)

CatV(es, env, i) ==
  IF i = Len(es) THEN Self(es[i], env)
  ELSE LET lo == CatV(es, env, i + 1)
           hi == Self(es[i], env)
       IN IF lo = <<>> \/ hi = <<>> THEN <<>> ELSE lo \o hi

(* the value stored by assigning e to a target of width lw *)
AssignV(e, lw, env) ==
  LET v == Ev(e, Mx(lw, W(e, env)), S(e, env), env)
  IN IF v = <<>> THEN <<>> ELSE Ext(v, lw, FALSE)
=============================================================================
