------------------------------- MODULE Uart --------------------------------
(* A serial line of bit time W clock cycles carrying NB data bits per frame.    *)
(* TxStep: the contract of a transmitter, judged on the line itself.            *)
(* RxStep: the contract of a receiver, judged on line and delivered values.     *)
EXTENDS Integers, Sequences

Bits(b, NB) == [i \in 1..NB |-> (b \div (2 ^ (i - 1))) % 2]
Frame(b, NB) == <<0>> \o Bits(b, NB) \o <<1>>

(* ---- transmitter ---- pend: accepted, not yet on the line; cur: bits of the   *)
(* frame still to be shown, left: cycles left of Head(cur); idle: cycles waited  *)
TxInit == [pend |-> <<>>, cur |-> <<>>, left |-> 0, idle |-> 0]
TxLine(s, W, NB, line) ==
  IF s.cur # <<>>
  THEN IF line # Head(s.cur) THEN "frame"
       ELSE ""
  ELSE IF line = 0 /\ s.pend = <<>> THEN "spurious-start"
  ELSE IF line = 1 /\ s.pend # <<>> /\ s.idle > 2 * W + 16 THEN "no-start"
  ELSE IF line \notin {0, 1} THEN "unknown"
  ELSE ""
TxStep(s, W, NB, line, acc, byte) ==
  LET a == IF s.cur # <<>>
           THEN IF s.left > 1 THEN [s EXCEPT !.left = @ - 1]
                ELSE [s EXCEPT !.cur = Tail(@), !.left = W]
           ELSE IF line = 0
           THEN LET f == Frame(Head(s.pend), NB)
                IN [pend |-> Tail(s.pend), idle |-> 0,
                    cur |-> IF W = 1 THEN Tail(f) ELSE f,
                    left |-> IF W = 1 THEN W ELSE W - 1]
           ELSE [s EXCEPT !.idle = IF s.pend = <<>> THEN 0 ELSE @ + 1]
  IN IF acc THEN [a EXCEPT !.pend = Append(@, byte)] ELSE a
TxDone(s) == s.pend = <<>> /\ s.cur = <<>>

(* ---- receiver ---- cnt: -1 between frames, else cycles since the start edge;   *)
(* acc: data bits seen; out: bytes that may be delivered                         *)
RxInit == [cnt |-> -1, acc |-> <<>>, out |-> <<>>]
RECURSIVE Val(_)
Val(bs) == IF bs = <<>> THEN 0 ELSE Head(bs) + 2 * Val(Tail(bs))
RxSee(s, W, NB, line) ==
  LET c == IF s.cnt = -1 THEN (IF line = 0 THEN 0 ELSE -1) ELSE s.cnt + 1
      k == c \div W
  IN IF c = -1 THEN s
     ELSE IF c % W = 0 /\ k \in 1..NB
     THEN LET a == Append(s.acc, line)
          IN IF k = NB THEN [cnt |-> c, acc |-> <<>>, out |-> Append(s.out, Val(a))]
             ELSE [s EXCEPT !.cnt = c, !.acc = a]
     ELSE IF c = (NB + 2) * W - 1 THEN [s EXCEPT !.cnt = -1]
     ELSE [s EXCEPT !.cnt = c]
RxClause(s, valid, byte) ==
  IF valid /\ s.out = <<>> THEN "spurious-byte"
  ELSE IF valid /\ byte # Head(s.out) THEN "byte"
  ELSE IF Len(s.out) > 1 THEN "late-byte"
  ELSE ""
RxPop(s, valid) == IF valid THEN [s EXCEPT !.out = Tail(@)] ELSE s
=============================================================================
