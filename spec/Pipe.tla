-------------------------------- MODULE Pipe --------------------------------
(* A pipelined arithmetic unit of announced latency D: every cycle with update   *)
(* it accepts one operand tuple (marked by enable) and moves every result one     *)
(* place; the result leaves exactly D updates after its operands.                *)
(* A place is [v |-> valid mark, k |-> result known, r |-> result tuple].        *)
EXTENDS BV
W2(a, sg, w) == Ext(a, w, sg)
(* op: [kind, wl, wr, wc, sl, sr, sc]; exact results, as bit vectors *)
MulBits(op, a, b) == LET w == op.wl + op.wr IN Mul(W2(a, op.sl, w), W2(b, op.sr, w))
MaddBits(op, a, b, c) ==
  LET w == IF op.wl + op.wr > op.wc THEN op.wl + op.wr ELSE op.wc
  IN Add(Mul(W2(a, op.sl, w), W2(b, op.sr, w)), W2(c, op.sc, w))
Result(op, a, b, c) ==
  CASE op.kind = "mul" -> [known |-> TRUE, r |-> <<MulBits(op, a, b)>>]
    [] op.kind = "madd" -> [known |-> TRUE, r |-> <<MaddBits(op, a, b, c)>>]
    [] op.kind = "div" -> IF IsZero(b) THEN [known |-> FALSE, r |-> <<>>]
                          ELSE [known |-> TRUE, r |-> <<Div(a, b, op.sl), Mod(a, b, op.sl)>>]
Empty == [v |-> 0, k |-> FALSE, r |-> <<>>]
PInit(D) == [i \in 1..D |-> Empty]
(* the marks are cleared by reset; what is under way is then void *)
PStep(p, rst, upd, en, x) ==
  IF rst THEN PInit(Len(p))
  ELSE IF upd THEN <<[v |-> en, k |-> x.known, r |-> x.r]>> \o SubSeq(p, 1, Len(p) - 1)
  ELSE p
Out(p) == p[Len(p)]
=============================================================================
