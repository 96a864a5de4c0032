------------------------------- MODULE DmaMC -------------------------------
(* Closed model of the DMA mechanism: an address process cuts a transfer into
   bursts (at most MaxB beats, never across a multiple of Bound units), a data
   process packs RAM words into bus words (or cuts them), running ahead of one
   another in any order.  When both are done, memory and RAM are those of the
   atomic operation of Dma.tla. *)
EXTENDS Dma

CONSTANTS Bus, MaxB, Bound, Ks, MaxSize, MaxG, MaxStride, Ahead
Unit == 8
VARIABLES op, k, ga, left, bursts, cur, sent, bi, acc, mem, ram
vars == <<op, k, ga, left, bursts, cur, sent, bi, acc, mem, ram>>

RamSize == 1 + (MaxSize - 1) * MaxStride + 1
Cf == [bus |-> Bus, unit |-> Unit, aunit |-> 1, round |-> {},
       rams |-> << [n |-> 1, k |-> k, size |-> RamSize, m |-> 1] >>]
Ram0 == << [a \in 1..RamSize |-> [j \in 1..k |-> 100 + a * 8 + j]] >>
St0 == [mem |-> [a \in {} |-> 0], ram |-> <<Ram0>>, base |-> 0]
Write == op[2] = "w"
Size == op[8]
(* bus words of the whole transfer *)
Beats == CeilDiv(Size * k, Bus)

Init == \E d \in {"r", "w"}, kk \in Ks, s \in 1..MaxSize, g \in 0..MaxG, t \in 1..MaxStride, la \in 0..1 :
  /\ g % Bus = 0
  /\ k = kk /\ op = <<"dma", d, "plain", 1, 0, la, g, s, t, 1>>
  /\ ga = g /\ left = CeilDiv(s * kk, Bus)
  /\ bursts = << >> /\ cur = 0 /\ sent = 0 /\ bi = 0 /\ acc = << >>
  /\ mem = [a \in {} |-> 0]
  /\ ram = << [a \in 1..RamSize |-> [j \in 1..kk |-> 100 + a * 8 + j]] >>

Min(a, b) == IF a < b THEN a ELSE b
ToBound == (Bound - (ga % Bound)) \div Bus
Address ==                       (* announce a burst *)
  /\ left > 0 /\ Len(bursts) < cur + Ahead
  /\ \E n \in {Min(Min(left, MaxB), ToBound)} :
       /\ bursts' = Append(bursts, <<ga, n>>)
       /\ left' = left - n /\ ga' = ga + n * Bus
  /\ UNCHANGED <<op, k, cur, sent, bi, acc, mem, ram>>

(* one beat of burst cur+1 at bus address A *)
A == bursts[cur + 1][1] + sent * Bus
NextBeat == IF sent + 1 = bursts[cur + 1][2] THEN cur' = cur + 1 /\ sent' = 0
            ELSE cur' = cur /\ sent' = sent + 1
Word(i) == LET a == op[6] + i * op[9] IN IF i < Size THEN ram[1][a + 1]
                                          ELSE [j \in 1..k |-> ram[1][((a) % RamSize) + 1][j]]
FillWord ==                      (* RAM word to the packing register *)
  /\ Write /\ Len(acc) < Bus /\ bi * k < Beats * Bus
  /\ acc' = acc \o Word(bi) /\ bi' = bi + 1
  /\ UNCHANGED <<op, k, ga, left, bursts, cur, sent, mem, ram>>
WBeat ==
  /\ Write /\ cur < Len(bursts) /\ Len(acc) >= Bus
  /\ mem' = [x \in DOMAIN mem \cup A..(A + Bus - 1) |-> IF x >= A /\ x < A + Bus THEN acc[x - A + 1] ELSE mem[x]]
  /\ acc' = SubSeq(acc, Bus + 1, Len(acc))
  /\ NextBeat /\ UNCHANGED <<op, k, ga, left, bursts, bi, ram>>
RBeat ==
  /\ ~Write /\ cur < Len(bursts) /\ Len(acc) < k
  /\ acc' = acc \o [j \in 1..Bus |-> MemInit(Cf, A + j - 1)]
  /\ NextBeat /\ UNCHANGED <<op, k, ga, left, bursts, bi, mem, ram>>
StoreWord ==
  /\ ~Write /\ bi < Size /\ Len(acc) >= k
  /\ ram' = [ram EXCEPT ![1][op[6] + bi * op[9] + 1] = SubSeq(acc, 1, k)]
  /\ acc' = SubSeq(acc, k + 1, Len(acc)) /\ bi' = bi + 1
  /\ UNCHANGED <<op, k, ga, left, bursts, cur, sent, mem>>
Done == left = 0 /\ cur = Len(bursts) /\ (Write \/ bi = Size)
Next == Address \/ FillWord \/ WBeat \/ RBeat \/ StoreWord \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Legal == \A i \in 1..Len(bursts) : /\ bursts[i][2] >= 1 /\ bursts[i][2] <= MaxB
                                   /\ bursts[i][1] \div Bound = (bursts[i][1] + bursts[i][2] * Bus - 1) \div Bound
Contiguous == \A i \in 1..(Len(bursts) - 1) : bursts[i + 1][1] = bursts[i][1] + bursts[i][2] * Bus
(* the atomic operation; words past the end are whatever fills the last bus word *)
Meant == IF Write THEN DmaWrite(Cf, St0, op) ELSE DmaRead(Cf, St0, op)
Refines == Done =>
  IF Write THEN /\ ram = St0.ram[1]
                /\ \A a \in DOMAIN Meant.mem : a \in DOMAIN mem /\ mem[a] = Meant.mem[a]
                /\ DOMAIN mem = op[7]..(op[7] + Beats * Bus - 1)
  ELSE mem = St0.mem /\ ram = Meant.ram[1]
(* nothing outside the bus words of the transfer is ever touched *)
Inside == \A a \in DOMAIN mem : a >= op[7] /\ a < op[7] + Beats * Bus
Finishes == <>Done
=============================================================================
