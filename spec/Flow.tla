-------------------------------- MODULE Flow -------------------------------
(* Meaning of an operator graph as a function from sequences of accepted
   input tokens to the sequence of values of every node.

   A node is a record
     k  kind        a  indices of its arguments (earlier nodes)
     n  integers    w,s  width and sign where the designer gives them (w = 0:
     b  bits             derived from the arguments)
     e  a VExpr tree over node numbers      c  literal operands, as written
   The width and sign of every other node follow from its operator.         *)
EXTENDS VExpr, TLC

BinOps == {"+", "-", "*", "/", "%"}
BitOps == {"&", "|", "^", "~^"}
Rel == Cmp \cup Logic \cup Red

RECURSIVE Attrs(_,_,_), SumW(_,_,_)
SumW(a, at, i) == IF i > Len(a) THEN 0 ELSE at[a[i]][1] + SumW(a, at, i + 1)

NodeWS(nd, at) ==
  LET wa(j) == at[nd.a[j]][1]
      sa(j) == at[nd.a[j]][2]
      k == nd.k
  IN
  CASE k \in {"in", "k", "x", "lut", "cnt", "ctr", "rram"} -> <<nd.w, nd.s>>
    [] k \in {"pred", "rb", "sp"} -> <<wa(1), sa(1)>>
    [] k = "arg" -> <<wa(2), sa(2)>>
    [] k = "sacc" -> IF nd.op = "pulse" THEN <<1, 0>> ELSE <<nd.w, nd.s>>
    [] k \in BinOps -> <<Mx(wa(1), wa(2)), sa(1) * sa(2)>>
    [] k \in BitOps -> <<Mx(wa(1), wa(2)), 0>>
    [] k \in Rel -> <<1, 0>>
    [] k = "u~" -> <<wa(1), 0>>
    [] k \in {"u-", "u+", "prev", "abs", "neg"} -> <<wa(1), sa(1)>>
    [] k = "sign" -> <<1, 0>>
    [] k = "<<" -> <<wa(1) + (IF nd.n[1] >= 0 THEN nd.n[1] ELSE 2 ^ wa(2)), sa(1)>>
    [] k = ">>" -> <<wa(1), 0>>
    [] k = ">>>" -> <<wa(1), sa(1)>>
    [] k = "bit" -> <<1, 0>>
    [] k = "sl" -> <<nd.n[1] - nd.n[2] + 1, 0>>
    [] k = "cat" -> <<SumW(nd.a, at, 1), 0>>
    [] k = "rep" -> <<nd.n[1] * wa(1), 0>>
    [] k = "?" -> <<Mx(wa(2), wa(3)), IF sa(2) + sa(3) > 0 THEN 1 ELSE 0>>
    [] k = "pulse" -> <<1, 0>>
    [] k = "acc" -> IF nd.w = 0 THEN <<wa(1), sa(1)>> ELSE <<nd.w, nd.s>>
Attrs(nodes, i, at) == IF i > Len(nodes) THEN at
                       ELSE Attrs(nodes, i + 1, Append(at, NodeWS(nodes[i], at)))

Vr(i) == <<"v", i>>
(* the expression a stateless node computes from its arguments *)
NodeE(nd) ==
  LET k == nd.k
      x(j) == IF nd.c # <<>> /\ nd.c[j] # <<>> THEN nd.c[j] ELSE Vr(nd.a[j])
  IN
  CASE k = "x" -> nd.e
    [] k \in BinOps \cup BitOps \cup Cmp \cup Logic \cup {"<<", ">>", ">>>"} -> <<k, x(1), x(2)>>
    [] k \in Red \cup Un -> <<k, x(1)>>
    [] k = "bit" -> <<"bit", nd.a[1], x(2)>>
    [] k = "sl" -> <<"sl", nd.a[1], nd.n[1], nd.n[2]>>
    [] k = "cat" -> <<"cat", [j \in 1..Len(nd.a) |-> x(j)]>>
    [] k = "rep" -> <<"rep", nd.n[1], x(1)>>
    [] k = "?" -> <<"?", x(1), x(2), x(3)>>

(* a node's state after a token: <<value, number of elements in the window>> *)
AccE(op, old, x) ==
  CASE op = "nand" -> <<"u~", <<"&", old, x>>>>
    [] op = "nor" -> <<"u~", <<"|", old, x>>>>
    [] op = "xnor" -> <<"u~", <<"^", old, x>>>>
    [] op = "max" -> <<"?", <<">", old, x>>, old, x>>
    [] op = "min" -> <<"?", <<"<", old, x>>, old, x>>
    [] OTHER -> <<op, old, x>>

Bad == <<<<>>, 0>>
(* Accumulators: one step per accepted token.  n = <<size, enable, reset, step>>,
   enable and reset are node numbers or 0.  An enabled token starts a new
   window when size tokens have been accumulated or its reset is set.       *)
AccStep(nd, i, at, bs, old, init) ==
  LET env(b) == [w |-> Append([j \in 1..(i - 1) |-> at[j][1]], at[i][1]),
                 s |-> Append([j \in 1..(i - 1) |-> at[j][2]], at[i][2]),
                 b |-> Append(bs, b), d |-> [j \in 1..i |-> 0]]
      size == nd.n[1]
      on == nd.n[2] = 0 \/ RedOr(bs[nd.n[2]])
      rs == nd.n[3] # 0 /\ RedOr(bs[nd.n[3]])
      c0 == IF rs \/ (size > 0 /\ old[2] = size) THEN 0 ELSE old[2]
      src == IF nd.k = "cnt" THEN <<"k", 32, 1, nd.b>>
             ELSE IF nd.e # <<>> THEN nd.e ELSE Vr(nd.a[1])
      start == rs \/ (size > 0 /\ c0 = 0)
      v == AssignV(AccE(nd.op, IF start THEN init ELSE Vr(i), src), at[i][1], env(old[1]))
      one == IF c0 + 1 = size THEN <<1>> ELSE <<0>>
      reset == AssignV(init, at[i][1], env(old[1]))
  IN IF on THEN <<IF nd.k = "pulse" THEN one ELSE v, c0 + 1>>
     ELSE IF rs THEN <<IF nd.k = "pulse" THEN old[1] ELSE reset, 0>>
     ELSE old
(* Accumulators of the stream layer.  n = <<size, enable, reset, interval,
   size node>>; the reset of the first element of a run is part of the reset
   node.  State: <<elements in the window, elements since the last one that
   was accumulated>>.  A window that is complete, or a reset, starts a new one. *)
SAccStep(nd, i, at, bs, old, init) ==
  LET env(b) == [w |-> Append([j \in 1..(i - 1) |-> at[j][1]], at[i][1]),
                 s |-> Append([j \in 1..(i - 1) |-> at[j][2]], at[i][2]),
                 b |-> Append(bs, b), d |-> [j \in 1..i |-> 0]]
      size == IF nd.n[5] # 0 THEN Capped(bs[nd.n[5]], 4000) ELSE nd.n[1]
      iv == nd.n[4]
      on == nd.n[2] = 0 \/ RedOr(bs[nd.n[2]])
      rs == nd.n[3] # 0 /\ RedOr(bs[nd.n[3]])
      start == rs \/ (size > 0 /\ old[2][1] >= size)
      c0 == IF start THEN 0 ELSE old[2][1]
      i0 == IF rs THEN 0 ELSE old[2][2]
      hit == on /\ (iv = 0 \/ i0 = iv - 1)
      i1 == IF on /\ iv > 0 THEN (i0 + 1) % iv ELSE i0
      base == IF start THEN AssignV(init, at[i][1], env(<<0>>)) ELSE old[1]
      (* a product keeps the sign of each operand *)
      W2 == at[i][1] + at[nd.a[1]][1]
      step == IF nd.op = "*" THEN Ext(Mul(Ext(base, W2, at[i][2] = 1), Ext(bs[nd.a[1]], W2, at[nd.a[1]][2] = 1)), at[i][1], FALSE)
              ELSE AssignV(AccE(nd.op, Vr(i), Vr(nd.a[1])), at[i][1], env(base))
  IN IF nd.op = "pulse"
     THEN IF hit THEN <<IF c0 + 1 = size THEN <<1>> ELSE <<0>>, <<c0 + 1, i1>>>>
          ELSE <<IF start THEN <<0>> ELSE old[1], <<c0, i1>>>>
     ELSE IF hit THEN <<step, <<c0 + 1, i1>>>>
     ELSE <<base, <<c0, i1>>>>
(* Counters: n = <<size, enable, reset, interval, size node, initval, step,
   offset or -1>>; the value of an element is the count before it.           *)
CtrStep(nd, bs, old) ==
  LET size == IF nd.n[5] # 0 THEN Capped(bs[nd.n[5]], 4000) ELSE nd.n[1]
      iv == nd.n[4]
      step == nd.n[7]
      on == nd.n[2] = 0 \/ RedOr(bs[nd.n[2]])
      rs == nd.n[3] # 0 /\ RedOr(bs[nd.n[3]])
      cur == IF rs THEN nd.n[6] ELSE old[2][1]
      i0 == IF rs THEN 0 ELSE old[2][2]
      hit == on /\ (iv = 0 \/ i0 = iv - 1)
      i1 == IF on /\ iv > 0 THEN (i0 + 1) % iv ELSE i0
      nx == IF size > 0 /\ cur >= size - step
            THEN (IF nd.n[8] >= 0 THEN nd.n[8] ELSE cur + step - size)
            ELSE cur + step
  IN <<Ext(Bits(cur, 20), nd.w, FALSE), <<IF hit THEN nx ELSE cur, i1>>>>
(* ring buffer and one reading port: n = <<length, enable>>, a = <<data, offset>> *)
RbStep(nd, bs, old) ==
  LET len == nd.n[1]
      on == nd.n[2] = 0 \/ RedOr(bs[nd.n[2]])
      mem == IF on THEN [old[2][1] EXCEPT ![old[2][2] + 1] = bs[nd.a[1]]] ELSE old[2][1]
      p == (old[2][2] + Capped(bs[nd.a[2]], 4000)) % len
  IN <<mem[p + 1], <<mem, IF on THEN (old[2][2] + 1) % len ELSE old[2][2]>>>>
(* scratchpad and one reading port: n = <<length, when>>, a = <<data, waddr, raddr>> *)
Low(b) == Nat2(IF Len(b) > 12 THEN SubSeq(b, 1, 12) ELSE b)
SpStep(nd, bs, old) ==
  LET on == nd.n[2] = 0 \/ RedOr(bs[nd.n[2]])
      wa == Low(bs[nd.a[2]]) % nd.n[1]
      ra == Low(bs[nd.a[3]]) % nd.n[1]
      mem == IF on THEN [old[2] EXCEPT ![wa + 1] = bs[nd.a[1]]] ELSE old[2]
  IN <<mem[ra + 1], mem>>
InitV(nd, i, at) ==
  IF nd.k = "pulse" THEN <<0>>
  ELSE AssignV(nd.i, at[i][1], [w |-> <<>>, s |-> <<>>, b |-> <<>>, d |-> <<>>])


(* the positions in n that are node numbers *)
Ctl(nd) == CASE nd.k \in {"acc", "cnt", "pulse"} -> {2, 3}
             [] nd.k \in {"sacc", "ctr"} -> {2, 3, 5}
             [] nd.k \in {"rb", "sp"} -> {2}
             [] OTHER -> {}
NodeV(nd, i, at, bs, hist, tok) ==
  LET miss == \/ \E j \in 1..Len(nd.a) : bs[nd.a[j]] = <<>>
              \/ \E j \in Ctl(nd) : nd.n[j] # 0 /\ bs[nd.n[j]] = <<>>
              \/ nd.k \in {"ctr", "rb", "sp"} /\ hist # <<>> /\ hist[Len(hist)].c[i] = <<>>
      env == [w |-> [j \in 1..(i - 1) |-> at[j][1]], s |-> [j \in 1..(i - 1) |-> at[j][2]],
              b |-> bs, d |-> [j \in 1..(i - 1) |-> 0]]
      w == at[i][1]
      a(j) == bs[nd.a[j]]
      at1 == at[nd.a[1]]
      at2 == at[nd.a[2]]
      W2 == at1[1] + at2[1]
  IN
  IF miss THEN IF nd.k \in {"ctr", "rb", "sp"} THEN <<<<>>, <<>>>> ELSE Bad
  ELSE CASE nd.k = "in" -> <<tok[nd.n[1]], 0>>
         [] nd.k = "k" -> <<nd.b, 0>>
         [] nd.k \in {"acc", "cnt", "pulse"} ->
              IF hist # <<>> /\ hist[Len(hist)].b[i] = <<>> THEN Bad
              ELSE AccStep(nd, i, at, bs,
                      IF hist = <<>> THEN <<InitV(nd, i, at), 0>>
                      ELSE <<hist[Len(hist)].b[i], hist[Len(hist)].c[i]>>, nd.i)
         [] nd.k = "sacc" ->
              IF hist # <<>> /\ hist[Len(hist)].b[i] = <<>> THEN Bad
              ELSE SAccStep(nd, i, at, bs,
                      IF hist = <<>> THEN <<InitV(nd, i, at), <<0, 0>>>>
                      ELSE <<hist[Len(hist)].b[i], hist[Len(hist)].c[i]>>, nd.i)
         [] nd.k = "ctr" ->
              CtrStep(nd, bs, IF hist = <<>> THEN <<<<>>, <<nd.n[6], 0>>>>
                              ELSE <<<<>>, hist[Len(hist)].c[i]>>)
         [] nd.k = "rb" ->
              RbStep(nd, bs, IF hist = <<>> THEN <<<<>>, <<[j \in 1..nd.n[1] |-> <<>>], 0>>>>
                             ELSE <<<<>>, hist[Len(hist)].c[i]>>)
         [] nd.k = "sp" ->
              SpStep(nd, bs, IF hist = <<>> THEN <<<<>>, [j \in 1..nd.n[1] |-> <<>>]>>
                             ELSE <<<<>>, hist[Len(hist)].c[i]>>)
         (* the last value selected by the condition a[2] *)
         [] nd.k = "pred" ->
              IF Len(nd.a) = 1 \/ RedOr(a(2)) THEN <<a(1), 0>>
              ELSE IF hist = <<>> THEN <<Zero(w), 0>> ELSE <<hist[Len(hist)].b[i], 0>>
         (* the position, in the window, of the element that set the value: a = <<value, counter>> *)
         [] nd.k = "arg" ->
              IF ~RedOr(a(2)) \/ hist = <<>> THEN <<a(2), 0>>
              ELSE IF hist[Len(hist)].b[nd.a[1]] = <<>> \/ hist[Len(hist)].b[i] = <<>> THEN Bad
              ELSE IF a(1) # hist[Len(hist)].b[nd.a[1]] THEN <<a(2), 0>> ELSE <<hist[Len(hist)].b[i], 0>>
         (* a read of a memory with contents t, repeated while a[2] is false *)
         [] nd.k = "rram" ->
              IF Len(nd.a) = 1 \/ RedOr(a(2)) THEN <<nd.t[(Nat2(Ext(a(1), nd.n[1], FALSE)) % Len(nd.t)) + 1], 0>>
              ELSE IF hist = <<>> THEN Bad ELSE <<hist[Len(hist)].b[i], 0>>
         [] nd.k = "prev" ->
              IF nd.n[1] > Len(hist)
              THEN <<AssignV(nd.i, w, env), 0>>
              ELSE <<hist[Len(hist) + 1 - nd.n[1]].b[nd.a[1]], 0>>
         (* a multiplier keeps each operand's own sign *)
         [] nd.k = "*" -> <<Ext(Mul(Ext(a(1), W2, at1[2] = 1), Ext(a(2), W2, at2[2] = 1)), w, FALSE), 0>>
         [] nd.k = "abs" -> <<IF at1[2] = 1 THEN AbsB(a(1)) ELSE a(1), 0>>
         [] nd.k = "sign" -> <<IF at1[2] = 1 /\ Msb(a(1)) = 1 THEN <<0>> ELSE <<1>>, 0>>
         [] nd.k = "neg" -> <<[j \in 1..w |-> IF j = 1 /\ at1[2] = 1 THEN Msb(a(1)) ELSE 0], 0>>
         [] nd.k = "lut" -> LET p == Capped(a(1), 4000) IN
                            IF p >= Len(nd.t) THEN Bad ELSE <<nd.t[p + 1], 0>>
         [] OTHER -> <<AssignV(NodeE(nd), w, env), 0>>

RECURSIVE Token(_,_,_,_,_,_,_), Run(_,_,_,_,_)
Token(nodes, at, hist, tok, i, bs, cs) ==
  IF i > Len(nodes) THEN [b |-> bs, c |-> cs]
  ELSE LET v == TLCEval(NodeV(nodes[i], i, at, bs, hist, tok))
       IN Token(nodes, at, hist, tok, i + 1, Append(bs, v[1]), Append(cs, v[2]))
(* toks[k][j] = the k-th accepted token of input j *)
Run(nodes, at, toks, k, hist) ==
  IF k > Len(toks) THEN hist
  ELSE Run(nodes, at, toks, k + 1, Append(hist, TLCEval(Token(nodes, at, hist, toks[k], 1, <<>>, <<>>))))
Values(nodes, toks) == Run(nodes, TLCEval(Attrs(nodes, 1, <<>>)), toks, 1, <<>>)
=============================================================================
