-------------------------------- MODULE Vlog --------------------------------
(* Cycle semantics of a synthesisable Verilog-2005 module (hierarchy, generate,    *)
(* parameters, functions and tasks elaborated): a state is the value of every       *)
(* variable; statements execute in order; a non-blocking assignment fixes its       *)
(* target and value when it executes and takes effect after every process of the    *)
(* same event; combinational processes then settle.                                 *)
(* P: w, s, d (width, sign, words of each variable), clk, ins, outs (variables),    *)
(* init (statements), comb (statement lists in dependency order),                   *)
(* proc (sequence of [edges |-> <<<<variable, level after the edge>>...>>,          *)
(* body |-> statements]).                                                           *)
(* statements: <<"nb", lv, e>> <<"bl", lv, e>> <<"if", c, then, else>>              *)
(* <<"case", e, arms>> (arm = <<labels, body>>; no labels: default; a label is an   *)
(* expression, or <<"kx", width, bits>> whose bits may be 2: matches both)          *)
(* <<"for", init, c, step, body>> <<"while", c, body>> <<"rpt", n, body>>           *)
(* <<"blk", body>>                                                                  *)
EXTENDS VExpr
Env(P, b) == [w |-> P.w, s |-> P.s, d |-> P.d, b |-> b]
RECURSIVE Locs(_,_), LocsL(_,_,_), PutAll(_,_,_,_), ExecL(_,_,_,_), Exec1(_,_,_), Loop(_,_,_,_,_),
          Rpt(_,_,_,_), Arm(_,_,_,_), Settle(_,_,_), FireI(_,_,_,_,_), Commit(_,_,_)

(* the places a target denotes, least significant first: <<var, word, low, n>>     *)
Locs(lv, env) ==
  LET t == lv[1] IN
  CASE t = "v"   -> <<<<lv[2], 0, 0, env.w[lv[2]]>>>>
    [] t = "bit" -> <<<<lv[2], 0, Capped(Self(lv[3], env), 4000), 1>>>>
    [] t = "sl"  -> <<<<lv[2], 0, lv[4], lv[3] - lv[4] + 1>>>>
    [] t = "mem" -> <<<<lv[2], Capped(Self(lv[3], env), 4000) + 1, 0, env.w[lv[2]]>>>>
    [] t = "cat" -> LocsL(lv[2], env, Len(lv[2]))
LocsL(ls, env, i) == IF i = 0 THEN <<>> ELSE Locs(ls[i], env) \o LocsL(ls, env, i - 1)
Put(b, loc, x) ==
  IF loc[2] > 0 THEN [b EXCEPT ![loc[1]][loc[2]] = x]
  ELSE [b EXCEPT ![loc[1]] = [i \in 1..Len(b[loc[1]]) |->
          IF i > loc[3] /\ i <= loc[3] + loc[4] THEN x[i - loc[3]] ELSE b[loc[1]][i]]]
PutAll(b, locs, x, i) ==
  IF i > Len(locs) THEN b
  ELSE PutAll(Put(b, locs[i], SubSeq(x, 1, locs[i][4])), locs, SubSeq(x, locs[i][4] + 1, Len(x)), i + 1)

True(e, env) == RedOr(Self(e, env))
(* widths of a case: all expressions are brought to the largest                    *)
Labels(arms) == UNION {{arms[i][1][j] : j \in 1..Len(arms[i][1])} : i \in 1..Len(arms)}
LabW(x, env) == IF x[1] = "kx" THEN x[2] ELSE W(x, env)
LabS(x, env) == IF x[1] = "kx" THEN FALSE ELSE S(x, env)
CaseW(e, arms, env) ==
  LET ws == {W(e, env)} \cup {LabW(x, env) : x \in Labels(arms)} IN CHOOSE m \in ws : \A y \in ws : y <= m
CaseS(e, arms, env) == S(e, env) /\ \A x \in Labels(arms) : LabS(x, env)
Match(x, v, w, s, env) ==
  IF x[1] = "kx" THEN \A i \in 1..w : IF i <= x[2] THEN (x[3][i] = 2 \/ x[3][i] = v[i]) ELSE v[i] = 0
  ELSE Ev(x, w, s, env) = v
(* index of the first arm with a matching label, else of the default, else 0        *)
Arm(arms, i, M(_), dflt) ==
  IF i > Len(arms) THEN dflt
  ELSE IF Len(arms[i][1]) = 0 THEN Arm(arms, i + 1, M, i)
  ELSE IF \E j \in 1..Len(arms[i][1]) : M(arms[i][1][j]) THEN i ELSE Arm(arms, i + 1, M, dflt)

(* r = [b |-> values, q |-> pending non-blocking updates]                          *)
ExecL(P, ss, i, r) == IF i > Len(ss) THEN r ELSE ExecL(P, ss, i + 1, Exec1(P, ss[i], r))
Exec1(P, s, r) ==
  LET env == Env(P, r.b) t == s[1] IN
  CASE t = "nb" -> [r EXCEPT !.q = Append(@, <<Locs(s[2], env), AssignV(s[3], W(s[2], env), env)>>)]
    [] t = "bl" -> [r EXCEPT !.b = PutAll(@, Locs(s[2], env), AssignV(s[3], W(s[2], env), env), 1)]
    [] t = "if" -> ExecL(P, IF True(s[2], env) THEN s[3] ELSE s[4], 1, r)
    [] t = "case" ->
         LET w == CaseW(s[2], s[3], env) sg == CaseS(s[2], s[3], env)
             v == Ev(s[2], w, sg, env)
             M(x) == Match(x, v, w, sg, env)
             k == Arm(s[3], 1, M, 0)
         IN IF k = 0 THEN r ELSE ExecL(P, s[3][k][2], 1, r)
    [] t = "for" -> Loop(P, s[3], s[4], s[5], Exec1(P, s[2], r))
    [] t = "while" -> Loop(P, s[2], <<"blk", <<>>>>, s[3], r)
    [] t = "rpt" -> Rpt(P, Capped(Self(s[2], env), 4000), s[3], r)
    [] t = "blk" -> ExecL(P, s[2], 1, r)
Loop(P, c, step, body, r) ==
  IF True(c, Env(P, r.b)) THEN Loop(P, c, step, body, Exec1(P, step, ExecL(P, body, 1, r))) ELSE r
Rpt(P, n, body, r) == IF n = 0 THEN r ELSE Rpt(P, n - 1, body, ExecL(P, body, 1, r))

Settle(P, b, i) == IF i > Len(P.comb) THEN b
                   ELSE Settle(P, ExecL(P, P.comb[i], 1, [b |-> b, q |-> <<>>]).b, i + 1)
Commit(b, q, i) == IF i > Len(q) THEN b ELSE Commit(PutAll(b, q[i][1], q[i][2], 1), q, i + 1)
Hit(p, b0, b1) == \E i \in 1..Len(p.edges) :
                     LET e == p.edges[i] IN b0[e[1]][1] # e[2] /\ b1[e[1]][1] = e[2]
FireI(P, i, b0, b1, r) ==
  IF i > Len(P.proc) THEN r
  ELSE FireI(P, i + 1, b0, b1, IF Hit(P.proc[i], b0, b1) THEN ExecL(P, P.proc[i].body, 1, r) ELSE r)
(* the inputs went from b0 to b1: settle, run the processes triggered, settle      *)
Change(P, b0, b1) ==
  LET s1 == Settle(P, b1, 1)
      r  == FireI(P, 1, b0, s1, [b |-> s1, q |-> <<>>])
  IN IF r.q = <<>> /\ r.b = s1 THEN s1 ELSE Settle(P, Commit(r.b, r.q, 1), 1)

Start(P) == LET z == [k \in 1..Len(P.w) |-> IF P.d[k] > 0 THEN [i \in 1..P.d[k] |-> Zero(P.w[k])] ELSE Zero(P.w[k])]
            IN Settle(P, [ExecL(P, P.init, 1, [b |-> z, q |-> <<>>]).b EXCEPT ![P.clk] = <<1>>], 1)
SetIn(P, b, row) == [k \in 1..Len(b) |-> IF \E i \in 1..Len(P.ins) : P.ins[i] = k
                                         THEN row[CHOOSE i \in 1..Len(P.ins) : P.ins[i] = k] ELSE b[k]]
(* one cycle: inputs change, falling edge, (outputs are observed), rising edge      *)
ToLow(P, b, row) == LET b1 == Change(P, b, SetIn(P, b, row)) IN Change(P, b1, [b1 EXCEPT ![P.clk] = <<0>>])
Rise(P, b) == Change(P, b, [b EXCEPT ![P.clk] = <<1>>])
Outs(P, b) == [i \in 1..Len(P.outs) |-> b[P.outs[i]]]
=============================================================================
