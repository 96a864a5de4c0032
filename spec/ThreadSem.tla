------------------------------ MODULE ThreadSem ------------------------------
(* What a thread computes: sequential execution of the Python function it was
   built from.  Programs are abstract syntax given as tuples (JSON arrays).

   expressions  <<"i",n>> <<"v",x>> <<"g",x>> <<"u",op,e>> <<"b",op,l,r>>
                <<"cmp",<<op..>>,<<e..>>>> <<"and",<<e..>>>> <<"or",<<e..>>>>
                <<"?",c,t,f>> <<"bit",e,i>> <<"sl",e,lo,hi>>
                <<"call",f,<<e..>>,<< <<name,e>>..>>>> 
   statements   <<"=",<<x..>>,e>>  <<"t=",<<x..>>,<<e..>>>>  <<"a=",x,op,e>>
                <<"g=",x,e>> (object write)  <<"bit=",x,i,e>>
                <<"if",c,b,e>> <<"wh",c,b,e>> <<"for",x,lo,hi,step,b,e>>
                <<"forl",x,<<e..>>,b,e>> <<"forv",x,b,e>> (over the variable arguments)
                <<"brk">> <<"cnt">> <<"ret",<<e>> or <<>>>> <<"pr",<<e..>>>>
                <<"do",e>> <<"pass">>                                         *)
EXTENDS Integers, Sequences, TLC, Bitwise

Trunc(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
               IN IF (a < 0) # (b < 0) THEN -q ELSE q
B(x) == IF x THEN 1 ELSE 0

Bin(op, a, b) ==
  CASE op = "+" -> a + b
    [] op = "-" -> a - b
    [] op = "*" -> a * b
    [] op = "/" -> Trunc(a, b)
    [] op = "//" -> Trunc(a, b)
    [] op = "%" -> a - b * Trunc(a, b)
    [] op = "**" -> (IF b = 0 THEN 1 ELSE a ^ b)
    [] op = "<<" -> a * 2 ^ b
    [] op = ">>" -> a \div 2 ^ b
    [] op = "&" -> a & b
    [] op = "|" -> a | b
    [] op = "^" -> a ^^ b
    [] op = "<" -> B(a < b)
    [] op = "<=" -> B(a <= b)
    [] op = ">" -> B(a > b)
    [] op = ">=" -> B(a >= b)
    [] op = "==" -> B(a = b)
    [] op = "!=" -> B(a # b)

Un(op, a) == CASE op = "-" -> -a [] op = "+" -> a [] op = "~" -> -a - 1 [] op = "not" -> B(a = 0)

(* s: [env: locals, g: objects, out: prints so far, ctl: "n"ormal, "b"reak, "c"ontinue, "r"eturn,
       rv: return value, va: variable arguments] *)
RECURSIVE Eval(_,_,_), EvalSeq(_,_,_), Exec(_,_,_), ExecSeq(_,_,_), While(_,_,_), ForR(_,_,_,_,_),
          ForL(_,_,_,_), Call(_,_,_)

\* values of a sequence of expressions, left to right
EvalSeq(P, es, s) ==
  IF es = <<>> THEN [v |-> <<>>, s |-> s]
  ELSE LET h == Eval(P, Head(es), s)
           t == EvalSeq(P, Tail(es), h.s)
       IN [v |-> <<h.v>> \o t.v, s |-> t.s]

Chain(ops, vs) == \A i \in 1..Len(ops) : Bin(ops[i], vs[i], vs[i+1]) = 1

Eval(P, e, s) ==
  CASE e[1] = "i" -> [v |-> e[2], s |-> s]
    [] e[1] = "v" -> [v |-> s.env[e[2]], s |-> s]
    [] e[1] = "g" -> [v |-> s.g[e[2]], s |-> s]
    [] e[1] = "u" -> (LET a == Eval(P, e[3], s) IN [v |-> Un(e[2], a.v), s |-> a.s])
    [] e[1] = "b" -> (LET a == EvalSeq(P, <<e[3], e[4]>>, s) IN [v |-> Bin(e[2], a.v[1], a.v[2]), s |-> a.s])
    [] e[1] = "cmp" -> (LET a == EvalSeq(P, e[3], s) IN [v |-> B(Chain(e[2], a.v)), s |-> a.s])
    [] e[1] = "and" -> (LET a == EvalSeq(P, e[2], s) IN [v |-> B(\A i \in DOMAIN a.v : a.v[i] # 0), s |-> a.s])
    [] e[1] = "or" -> (LET a == EvalSeq(P, e[2], s) IN [v |-> B(\E i \in DOMAIN a.v : a.v[i] # 0), s |-> a.s])
    [] e[1] = "?" -> (LET a == EvalSeq(P, <<e[2], e[3], e[4]>>, s)
                      IN [v |-> IF a.v[1] # 0 THEN a.v[2] ELSE a.v[3], s |-> a.s])
    [] e[1] = "bit" -> (LET a == Eval(P, e[2], s) IN [v |-> (a.v \div 2 ^ e[3]) % 2, s |-> a.s])
    [] e[1] = "sl" -> (LET a == Eval(P, e[2], s)
                       IN [v |-> (a.v \div 2 ^ e[3]) % 2 ^ (e[4] - e[3]), s |-> a.s])
    [] e[1] = "call" -> Call(P, e, s)

\* bind arguments: positional, then keywords, then defaults; the rest are variable arguments
Call(P, e, s) ==
  LET f  == P[e[2]]
      a  == EvalSeq(P, e[3], s)
      k  == EvalSeq(P, [i \in 1..Len(e[4]) |-> e[4][i][2]], a.s)
      np == Len(f.ps)
      nd == Len(f.ds)
      Arg(i) == IF i <= Len(a.v) THEN a.v[i]
                ELSE IF \E j \in 1..Len(e[4]) : e[4][j][1] = f.ps[i]
                     THEN k.v[CHOOSE j \in 1..Len(e[4]) : e[4][j][1] = f.ps[i]]
                     ELSE f.ds[i - (np - nd)]
      env == [x \in {f.ps[i] : i \in 1..np} |-> Arg(CHOOSE i \in 1..np : f.ps[i] = x)]
      va  == IF Len(a.v) > np THEN SubSeq(a.v, np + 1, Len(a.v)) ELSE <<>>
      r   == ExecSeq(P, f.body, [env |-> env, g |-> k.s.g, out |-> k.s.out, ctl |-> "n", rv |-> 0, va |-> va])
  IN [v |-> r.rv, s |-> [s EXCEPT !.g = r.g, !.out = r.out]]

Set(s, x, v) == [s EXCEPT !.env = (x :> v) @@ @]
RECURSIVE SetAll(_,_,_)
SetAll(s, xs, vs) == IF xs = <<>> THEN s ELSE SetAll(Set(s, Head(xs), Head(vs)), Tail(xs), Tail(vs))
SetBit(a, i, b) == a - ((a \div 2 ^ i) % 2) * 2 ^ i + (b % 2) * 2 ^ i

ExecSeq(P, b, s) == IF b = <<>> \/ s.ctl # "n" THEN s ELSE ExecSeq(P, Tail(b), Exec(P, Head(b), s))

\* leaving a loop: a break ends it, a normal end runs the else part
Out(P, els, s) == ExecSeq(P, els, s)

While(P, t, s) ==
  LET c == Eval(P, t[2], s)
  IN IF c.v = 0 THEN Out(P, t[4], c.s)
     ELSE LET r == ExecSeq(P, t[3], c.s)
          IN CASE r.ctl = "b" -> [r EXCEPT !.ctl = "n"]
               [] r.ctl = "r" -> r
               [] OTHER -> While(P, t, [r EXCEPT !.ctl = "n"])

\* the bounds are values, evaluated once
ForR(P, t, i, hl, s) ==
  IF ~(IF hl[2] > 0 THEN i < hl[1] ELSE i > hl[1]) THEN Out(P, t[7], s)
  ELSE LET r == ExecSeq(P, t[6], Set(s, t[2], i))
       IN CASE r.ctl = "b" -> [r EXCEPT !.ctl = "n"]
            [] r.ctl = "r" -> r
            [] OTHER -> ForR(P, t, i + hl[2], hl, [r EXCEPT !.ctl = "n"])

ForL(P, t, vs, s) ==
  LET n == Len(t)
  IN IF vs = <<>> THEN Out(P, t[n], s)
     ELSE LET r == ExecSeq(P, t[n-1], Set(s, t[2], Head(vs)))
          IN CASE r.ctl = "b" -> [r EXCEPT !.ctl = "n"]
               [] r.ctl = "r" -> r
               [] OTHER -> ForL(P, t, Tail(vs), [r EXCEPT !.ctl = "n"])

Exec(P, t, s) ==
  CASE t[1] = "=" -> (LET a == Eval(P, t[3], s) IN SetAll(a.s, t[2], [i \in 1..Len(t[2]) |-> a.v]))
    [] t[1] = "t=" -> (LET a == EvalSeq(P, t[3], s) IN SetAll(a.s, t[2], a.v))
    [] t[1] = "a=" -> (LET a == Eval(P, t[4], s) IN Set(a.s, t[2], Bin(t[3], a.s.env[t[2]], a.v)))
    [] t[1] = "g=" -> (LET a == Eval(P, t[3], s) IN [a.s EXCEPT !.g[t[2]] = a.v])
    [] t[1] = "bit=" -> (LET a == Eval(P, t[4], s) IN Set(a.s, t[2], SetBit(a.s.env[t[2]], t[3], a.v)))
    [] t[1] = "if" -> (LET c == Eval(P, t[2], s) IN ExecSeq(P, IF c.v # 0 THEN t[3] ELSE t[4], c.s))
    [] t[1] = "wh" -> While(P, t, s)
    [] t[1] = "for" -> (LET b == EvalSeq(P, <<t[3], t[4], t[5]>>, s)
                        IN ForR(P, t, b.v[1], <<b.v[2], b.v[3]>>, b.s))
    [] t[1] = "forl" -> (LET b == EvalSeq(P, t[3], s) IN ForL(P, t, b.v, b.s))
    [] t[1] = "forv" -> ForL(P, t, s.va, s)
    [] t[1] = "brk" -> [s EXCEPT !.ctl = "b"]
    [] t[1] = "cnt" -> [s EXCEPT !.ctl = "c"]
    [] t[1] = "ret" -> (IF t[2] = <<>> THEN [s EXCEPT !.ctl = "r"]
                        ELSE LET a == Eval(P, t[2][1], s) IN [a.s EXCEPT !.ctl = "r", !.rv = a.v])
    [] t[1] = "pr" -> (LET a == EvalSeq(P, t[2], s) IN [a.s EXCEPT !.out = Append(@, a.v)])
    [] t[1] = "do" -> Eval(P, t[2], s).s
    [] t[1] = "pass" -> s

\* run function f with the given arguments; g gives the initial objects
Run(P, f, args, g) ==
  Call(P, <<"call", f, [i \in 1..Len(args) |-> <<"i", args[i]>>], <<>>>>,
       [env |-> <<>>, g |-> g, out |-> <<>>, ctl |-> "n", rv |-> 0, va |-> <<>>])
=============================================================================
