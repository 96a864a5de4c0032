-------------------------------- MODULE Hier --------------------------------
(* Elaboration of a hierarchy of parameterised modules with generate structures.  *)
(* A design is a sequence of modules [kind, params, locals, w, a, b, body]; a       *)
(* module maps its 16-bit input to an output of w bits.  Expressions: [0, n],       *)
(* ["v", name] as <<1, name>>, <<2, op, l, r>>.  Environments: sequences of          *)
(* <<name, value>>.                                                                *)
EXTENDS Integers, Sequences
Pow2(n) == 2 ^ n
RECURSIVE Ev(_, _), Lookup(_, _), Bind(_, _, _), EvalMod(_, _, _, _), Chain(_, _, _, _, _), Item(_, _, _, _), Rep(_, _, _, _, _, _, _)
Lookup(env, n) == IF env[Len(env)][1] = n THEN env[Len(env)][2] ELSE Lookup(SubSeq(env, 1, Len(env) - 1), n)
Ev(e, env) ==
  CASE e[1] = 0 -> e[2]
    [] e[1] = 1 -> Lookup(env, e[2])
    [] OTHER ->
       LET l == Ev(e[3], env) r == Ev(e[4], env)
       IN CASE e[2] = "+" -> l + r
            [] e[2] = "*" -> l * r
            [] e[2] = ">" -> (IF l > r THEN 1 ELSE 0)
            [] e[2] = "==" -> (IF l = r THEN 1 ELSE 0)
            [] e[2] = "%" -> l % r
(* parameters in order of declaration; given: values passed at the instance         *)
Given(given, n) == {i \in 1..Len(given) : given[i][1] = n}
Bind(ps, given, env) ==
  IF ps = <<>> THEN env
  ELSE LET p == Head(ps)
           g == Given(given, p[1])
           x == IF g # {} THEN given[CHOOSE i \in g : TRUE][2] ELSE Ev(p[2], env)
       IN Bind(Tail(ps), given, Append(env, <<p[1], x>>))
(* the value of an output for an input and the parameters given                     *)
EvalMod(D, m, given, x) ==
  LET M == D[m]
      env == Bind(M.locals, <<>>, Bind(M.params, given, <<>>))
      w == Ev(M.w, env)
      v == IF M.kind = "leaf" THEN x * Ev(M.a, env) + Ev(M.b, env) ELSE Chain(D, M.body, 1, env, x)
  IN v % Pow2(w)
Chain(D, body, k, env, x) == IF k > Len(body) THEN x ELSE Chain(D, body, k + 1, env, Item(D, body[k], env, x))
Item(D, it, env, x) ==
  CASE it.t = "inst" -> EvalMod(D, it.m, [i \in 1..Len(it.args) |-> <<it.args[i][1], Ev(it.args[i][2], env)>>], x)
    [] it.t = "add" -> (x + Ev(it.e, env)) % 65536
    [] it.t = "for" -> Rep(D, it.body, it.i, 0, Ev(it.n, env), env, x)
    [] it.t = "if" -> Chain(D, IF Ev(it.c, env) # 0 THEN it.body ELSE it.alt, 1, env, x)
Rep(D, body, i, k, n, env, x) ==
  IF k >= n THEN x ELSE Rep(D, body, i, k + 1, n, env, Chain(D, body, 1, Append(env, <<i, k>>), x))
=============================================================================
