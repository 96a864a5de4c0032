-------------------------------- MODULE Dma --------------------------------
(* What a bus master's operations do to memory and RAMs, one at a time.

   All data are sequences of units of c.unit bits.  c = [
     bus   : units per bus word,
     aunit : units per address step (byte),
     rams  : sequence of [n: banks, k: units per word, size: words per bank,
                          m: 1, or the banks making up one outer bank],
     round : deviations in force (subset of {"wide", "packed"}) ]
   State st = [mem, ram, base]; mem: written units (address -> value), other
   units hold MemInit; ram[r][b][a+1] the words.

   Operations:
     <<"write", addr, units>>           one bus word
     <<"read", addr, units seen>>
     <<"dma", dir, mode, ram, bank, laddr, gaddr, size, stride, blocksize>>
         dir "r": memory to RAM;  modes "plain", "bank", "block", "packed", "bcast";
         "nblock": blocks over the outer banks of a nested RAM, words packed inside
     <<"ramr", ram, bank, addr, units seen>>
     <<"ramw", ram, bank, addr, units>>
     <<"base", addr>>                   global base address of what follows
     <<"memr", list of <<unit address, value>>>>   all units differing from MemInit *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

ByteInit(a) == (a * 7 + (a \div 256) * 11 + (a \div 8) * 5 + 3) % 256
MemInit(c, a) ==            (* a: unit address; units are bytes or nibbles *)
  IF c.unit = 8 THEN ByteInit(a)
  ELSE IF a % 2 = 0 THEN ByteInit(a \div 2) % 16 ELSE ByteInit(a \div 2) \div 16
MemAt(c, st, a) == IF a \in DOMAIN st.mem THEN st.mem[a] ELSE MemInit(c, a)

(* addresses given in bytes name the bus word holding them *)
Unit0(c, st, addr) == LET u == (addr + st.base) * c.aunit IN u - (u % c.bus)

(* --- the words of a transfer --- *)
CeilDiv(a, b) == (a + b - 1) \div b
(* units of one word as it travels *)
WordUnits(c, op) == LET r == c.rams[op[4]]
                    IN IF op[3] = "packed" THEN r.n * r.k ELSE IF op[3] = "nblock" THEN r.m * r.k ELSE r.k
PackOf(c, op) == LET r == c.rams[op[4]] IN IF op[3] = "packed" THEN r.n ELSE IF op[3] = "nblock" THEN r.m ELSE 1
(* number of words that travel *)
NWords(c, op) ==
  LET r == c.rams[op[4]]
      w0 == IF "packed" \in c.round THEN CeilDiv(op[8], PackOf(c, op)) ELSE op[8] \div PackOf(c, op)
      q == c.bus \div WordUnits(c, op)          (* words per bus word, if the bus is wider *)
  IN IF "wide" \in c.round /\ op[2] = "w" /\ c.bus > WordUnits(c, op)
     THEN CeilDiv(w0, q) * q ELSE w0
(* single words of the last packed word that are not whole (exact semantics) *)
Rest(c, op) == IF "packed" \notin c.round THEN op[8] % PackOf(c, op) ELSE 0

(* where unit j (from 0) of travelling word i (from 0) lives: <<bank, addr, unit>>
   (bcast: in every bank) *)
Place(c, op, i, j) ==
  LET r == c.rams[op[4]]
      la == op[6]
      s == op[9]
      bs == op[10]
  IN CASE op[3] = "plain" -> LET a == la + i * s IN <<a % r.n, a \div r.n, j>>
       [] op[3] = "bank" -> <<op[5], la + i * s, j>>
       [] op[3] = "block" ->
            LET blk == i \div bs
            IN <<blk % r.n, la + ((blk \div r.n) * bs + (i % bs)) * s, j>>
       [] op[3] = "packed" -> <<j \div r.k, (la + i * s) \div r.n, j % r.k>>
       [] op[3] = "nblock" ->
            LET bp == CeilDiv(bs, r.m)
                blk == i \div bp
                no == r.n \div r.m
                idx == (blk \div no) * bp + (i % bp)
            IN <<(blk % no) * r.m + j \div r.k, (la + idx * s) \div r.m, j % r.k>>
       [] OTHER -> <<0, la + i * s, j>>

(* the inverse: the travelling word living at <<bank, addr>>, or -1.  Strides are
   positive, and multiples of the number of banks for packed transfers. *)
Div(x, s) == IF x < 0 \/ x % s # 0 THEN -1 ELSE x \div s
WordAt(c, op, b, a) ==
  LET r == c.rams[op[4]]
      la == op[6]
      s == op[9]
      bs == op[10]
      idx == Div(a - la, s)
  IN CASE op[3] = "plain" -> Div(a * r.n + b - la, s)
       [] op[3] = "bank" -> IF b = op[5] THEN idx ELSE -1
       [] op[3] = "block" -> IF idx < 0 THEN -1 ELSE ((idx \div bs) * r.n + b) * bs + (idx % bs)
       [] op[3] = "packed" -> Div(a - la \div r.n, s \div r.n)
       [] op[3] = "nblock" ->
            LET bp == CeilDiv(bs, r.m)
                no == r.n \div r.m
                x == Div(a - la \div r.m, s \div r.m)
            IN IF x < 0 THEN -1 ELSE ((x \div bp) * no + b \div r.m) * bp + (x % bp)
       [] OTHER -> idx

DmaRead(c, st, op) ==
  LET g == Unit0(c, st, op[7])
      w == WordUnits(c, op)
      n == NWords(c, op)
      rest == Rest(c, op)
      k == c.rams[op[4]].k
      R == st.ram[op[4]]
      off(b) == (b % PackOf(c, op)) * k
      word(b, a, old) ==
        LET i == WordAt(c, op, b, a)
        IN IF i >= 0 /\ (i < n \/ (i = n /\ b % PackOf(c, op) < rest))
           THEN [j \in 1..k |-> MemAt(c, st, g + i * w + off(b) + j - 1)] ELSE old
  IN [st EXCEPT !.ram[op[4]] =
        TLCEval([b \in DOMAIN R |-> [a \in DOMAIN R[b] |-> word(b - 1, a - 1, R[b][a])]])]

DmaWrite(c, st, op) ==
  LET g == Unit0(c, st, op[7])
      w == WordUnits(c, op)
      R == st.ram[op[4]]
      A == g..(g + NWords(c, op) * w + Rest(c, op) * c.rams[op[4]].k - 1)
      val(a) == LET i == (a - g) \div w
                    j == (a - g) % w
                    p == Place(c, op, i, j)
                IN R[p[1] + 1][p[2] + 1][p[3] + 1]
  IN [st EXCEPT !.mem = TLCEval([a \in DOMAIN st.mem \cup A |-> IF a \in A THEN val(a) ELSE st.mem[a]])]

-----------------------------------------------------------------------------
OpStep(c, st, op) ==
  CASE op[1] = "write" ->
         LET g == Unit0(c, st, op[2])
             A == g..(g + Len(op[3]) - 1)
         IN [bad |-> "", st |-> [st EXCEPT !.mem = [a \in DOMAIN st.mem \cup A |-> IF a \in A THEN op[3][a - g + 1] ELSE st.mem[a]]]]
    [] op[1] = "read" ->
         LET g == Unit0(c, st, op[2])
         IN [bad |-> IF \A i \in 1..Len(op[3]) : op[3][i] = MemAt(c, st, g + i - 1) THEN "" ELSE "read", st |-> st]
    [] op[1] = "dma" -> [bad |-> "", st |-> IF op[2] = "r" THEN DmaRead(c, st, op) ELSE DmaWrite(c, st, op)]
    [] op[1] = "ramr" ->
         [bad |-> IF st.ram[op[2]][op[3] + 1][op[4] + 1] = op[5] THEN "" ELSE "ram", st |-> st]
    [] op[1] = "ramw" ->
         [bad |-> "", st |-> [st EXCEPT !.ram[op[2]][op[3] + 1][op[4] + 1] = op[5]]]
    [] op[1] = "base" -> [bad |-> "", st |-> [st EXCEPT !.base = op[2]]]
    [] op[1] = "memr" ->
         LET D == {op[2][i][1] : i \in 1..Len(op[2])}
             F == [a \in D |-> op[2][CHOOSE i \in 1..Len(op[2]) : op[2][i][1] = a][2]]
         IN [bad |-> IF /\ \A i \in 1..Len(op[2]) : op[2][i][1] \in DOMAIN st.mem /\ st.mem[op[2][i][1]] = op[2][i][2]
                        /\ \A a \in DOMAIN st.mem : a \in D \/ st.mem[a] = MemInit(c, a)
                     THEN "" ELSE "memory", st |-> st]
    [] OTHER -> [bad |-> "unknown-op", st |-> st]

MemWrong(c, st, final) ==   (* for the report *)
  LET D == {final[i][1] : i \in 1..Len(final)}
  IN [extra |-> {final[i] : i \in {j \in 1..Len(final) : final[j][1] \notin DOMAIN st.mem}},
      wrong |-> {final[i] : i \in {j \in 1..Len(final) : final[j][1] \in DOMAIN st.mem /\ st.mem[final[j][1]] # final[j][2]}},
      missing |-> {a \in DOMAIN st.mem : a \notin D /\ st.mem[a] # MemInit(c, a)}]
=============================================================================
