-------------------------------- MODULE Axi --------------------------------
(* AXI4 as a cycle-by-cycle protocol plus the byte memory behind it.

   A record describes one clock cycle of one port:
     [t, p, aw, w, b, ar, r]
   where a channel is << >> when its VALID is low and otherwise
     aw, ar : <<ready, addr, len, id, size, burst>>
     w      : <<ready, last, strb, data>>        (strb: bits, data: bytes)
     b      : <<ready, id, resp>>
     r      : <<ready, last, id, resp, data>>
   Step(c, st, rec) gives [bad, st]: bad = "" or the name of the broken rule.
   Rules of the master (C09) and of the slave (C24) are both here; a harness
   drives one side itself, so that a broken rule is the fault of the other.

   Memory.  A write beat is outstanding from the cycle both its burst's address
   and the beat itself are accepted until its response is VALID; it takes effect
   at some instant in between.  A read beat samples the memory at some instant
   between the acceptance of its address and the cycle its data is VALID.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

Chans == {"aw", "w", "b", "ar", "r"}
Port0 == [pv   |-> [ch \in Chans |-> << >>],
          lt   |-> 0,          (* time of the previous record of this port *)
          aws  |-> 0,          (* bursts announced: AWVALID seen *)
          awq  |-> << >>,      (* accepted write bursts *)
          wq   |-> << <<>> >>, (* write beats, burst by burst; the last is open *)
          nb   |-> 0,          (* responses shown *)
          arq  |-> << >>,      (* accepted read bursts *)
          nr   |-> 0,          (* read bursts completely shown *)
          rb   |-> 0]          (* beats of the current read burst shown *)

Init0(np) == [ports |-> [p \in 1..np |-> Port0], hist |-> << >>]

Never == 1000000000
Max2(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* the memory *)
InitByte(c, a) ==
  IF c.img # << >> THEN (IF a + 1 <= Len(c.img) THEN c.img[a + 1] ELSE 0)
  ELSE IF c.wordbytes = 0 THEN 0
  ELSE LET i == a \div c.wordbytes
           j == a % c.wordbytes
       IN IF j >= 3 THEN 0 ELSE (i \div (256 ^ j)) % 256

(* candidates of one byte: [v, s, e, o, p, k] written by burst k of port p,
   outstanding from s to e, obsolete (no longer the value) after o *)
Base(c, a) == << [v |-> InitByte(c, a), s |-> -1, e |-> -1, o |-> Never, p |-> 0, k |-> 0] >>
Hist(c, h, a) == IF a \in DOMAIN h THEN h[a] ELSE Base(c, a)

AddWrite(c, h, a0, strb, data, t, p, k) ==
  LET B == {a0 + i - 1 : i \in {j \in 1..Len(strb) : strb[j] = 1}}
      mk(a) == Append(Hist(c, h, a), [v |-> data[a - a0 + 1], s |-> t, e |-> Never,
                                      o |-> Never, p |-> p, k |-> k])
  IN TLCEval([a \in DOMAIN h \cup B |-> IF a \in B THEN mk(a) ELSE h[a]])

(* burst k of port p is answered at time t *)
Complete(h, p, k, t) == TLCEval(
  [a \in DOMAIN h |->
     IF \A i \in 1..Len(h[a]) : ~(h[a][i].p = p /\ h[a][i].k = k) THEN h[a]
     ELSE LET q == TLCEval([i \in 1..Len(h[a]) |->
                      IF h[a][i].p = p /\ h[a][i].k = k THEN [h[a][i] EXCEPT !.e = t] ELSE h[a][i]])
              D == {i \in 1..Len(q) : q[i].p = p /\ q[i].k = k}
              last == CHOOSE i \in D : \A j \in D : j <= i
          IN [i \in 1..Len(q) |->
               IF i # last /\ q[i].o = Never
                  /\ ((q[i].p = p /\ i < last) \/ q[i].e < q[last].s)
               THEN [q[i] EXCEPT !.o = t] ELSE q[i]]])

(* may a read sampled between ta and tv return v for byte a? *)
MayRead(c, h, a, v, ta, tv) ==
  LET q == Hist(c, h, a)
  IN \E i \in 1..Len(q) : q[i].v = v /\ q[i].s < tv /\ q[i].o >= ta

(* values byte a may hold now *)
Live(c, h, a) == LET q == Hist(c, h, a) IN {q[i].v : i \in {j \in 1..Len(q) : q[j].o = Never}}

(* accesses of a thread, one at a time while the buses are idle:
   <<"r"|"w", first bit, bits>>, bit i of byte a having number 8a+i *)
Bit(v, i) == (v \div (2 ^ i)) % 2
SetBits(v, a, b0, bits) ==
  LET bit(i) == LET k == 8 * a + i - b0 + 1
                IN IF k \in 1..Len(bits) THEN bits[k] ELSE Bit(v, i)
  IN bit(0) + 2 * bit(1) + 4 * bit(2) + 8 * bit(3) + 16 * bit(4) + 32 * bit(5) + 64 * bit(6) + 128 * bit(7)
Touched(b0, bits) == (b0 \div 8)..((b0 + Len(bits) - 1) \div 8)
ThreadWrite(c, h, b0, bits) ==
  LET B == Touched(b0, bits)
      keep(q) == SelectSeq(q, LAMBDA x : x.o = Never)
      new(a) == LET q == keep(Hist(c, h, a))
                IN [i \in 1..Len(q) |-> [q[i] EXCEPT !.v = SetBits(@, a, b0, bits), !.s = -1, !.e = -1]]
  IN TLCEval([a \in DOMAIN h \cup B |-> IF a \in B THEN new(a) ELSE h[a]])
ThreadRead(c, h, b0, bits) ==
  \A a \in Touched(b0, bits) : \E v \in Live(c, h, a) : SetBits(v, a, b0, bits) = v

-----------------------------------------------------------------------------
Stable(st, rec, ch) ==
  st.pv[ch] # << >> =>
     /\ rec.t = st.lt + 1
     /\ rec[ch] # << >>
     /\ Tail(rec[ch]) = st.pv[ch]

New(st, rec, ch) == rec[ch] # << >> /\ st.pv[ch] = << >>
Acc(rec, ch) == rec[ch] # << >> /\ rec[ch][1] = 1

Pow2(n) == 2 ^ n
GoodReq(c, q) == /\ q[5] = c.size
                 /\ (q[3] = 0 \/ q[6] = 1)
                 /\ q[2] % c.bytes = 0
                 /\ q[3] \in 0..255
                 /\ (q[2] % 4096) + (q[3] + 1) * c.bytes <= 4096

(* writes that became outstanding in this step are added to the history *)
RECURSIVE Launch(_, _, _, _, _, _, _)
Launch(c, h, aw, beats, i, p, k) ==   (* every beat i.. of burst k *)
  IF i > Len(beats) THEN h
  ELSE Launch(c, AddWrite(c, h, aw.addr + (i - 1) * c.bytes, beats[i].strb, beats[i].data,
                          Max2(aw.t, beats[i].t), p, k), aw, beats, i + 1, p, k)

Step(c, S, rec) ==
  LET st == S.ports[rec.p]
      unst == {ch \in Chans : ~Stable(st, rec, ch)}
      h0 == S.hist
      aws1 == st.aws + (IF New(st, rec, "aw") THEN 1 ELSE 0)
      awacc == Acc(rec, "aw")
      awq1 == IF awacc THEN Append(st.awq, [addr |-> rec.aw[2], len |-> rec.aw[3], id |-> rec.aw[4], t |-> rec.t])
              ELSE st.awq
      (* --- write data --- *)
      open == Len(st.wq)                      (* burst the next beat belongs to *)
      nbeat == Len(st.wq[open])               (* beats of it accepted *)
      wacc == Acc(rec, "w")
      beat == [strb |-> rec.w[3], data |-> rec.w[4], t |-> rec.t]
      wq1 == IF ~wacc THEN st.wq
             ELSE LET q == [st.wq EXCEPT ![open] = Append(@, beat)]
                  IN IF rec.w[2] = 1 THEN Append(q, << >>) ELSE q
      (* history: a newly accepted address launches the beats already there;
         a newly accepted beat is launched when its address was accepted before *)
      h1 == IF awacc /\ c.mem /\ Len(awq1) <= Len(wq1)
            THEN Launch(c, h0, awq1[Len(awq1)], wq1[Len(awq1)], 1, rec.p, Len(awq1)) ELSE h0
      h2 == IF wacc /\ c.mem /\ open <= Len(st.awq)
            THEN AddWrite(c, h1, st.awq[open].addr + nbeat * c.bytes, beat.strb, beat.data, rec.t, rec.p, open)
            ELSE h1
      (* --- response --- *)
      newb == New(st, rec, "b")
      k == st.nb + 1
      h3 == IF newb /\ c.mem THEN Complete(h2, rec.p, k, rec.t) ELSE h2
      (* --- read --- *)
      aracc == Acc(rec, "ar")
      arq1 == IF aracc THEN Append(st.arq, [addr |-> rec.ar[2], len |-> rec.ar[3], id |-> rec.ar[4], t |-> rec.t])
              ELSE st.arq
      newr == New(st, rec, "r")
      kr == st.nr + 1
      rbad ==
        IF ~newr THEN ""
        ELSE IF kr > Len(st.arq) THEN "r:no-request"
        ELSE LET q == st.arq[kr] IN
          IF (rec.r[2] = 1) # (st.rb = q.len) THEN "r:last"
          ELSE IF rec.r[3] # q.id THEN "r:id"
          ELSE IF rec.r[4] # 0 THEN "r:resp"
          ELSE IF c.mem /\ \E i \in 1..c.bytes :
                    ~MayRead(c, h0, q.addr + st.rb * c.bytes + i - 1, rec.r[5][i], q.t, rec.t)
               THEN "r:data"
          ELSE ""
      rlast == newr /\ kr <= Len(st.arq) /\ st.rb = st.arq[kr].len
      bbad ==
        IF ~newb THEN ""
        ELSE IF k > Len(st.awq) \/ k >= Len(st.wq) THEN "b:no-request"
        ELSE IF rec.b[2] # st.awq[k].id THEN "b:id"
        ELSE IF rec.b[3] # 0 THEN "b:resp"
        ELSE ""
      wbad ==
        IF ~New(st, rec, "w") THEN ""
        ELSE IF c.announced /\ open > aws1 THEN "w:not-announced"
        ELSE IF open <= Len(awq1) /\ (rec.w[2] = 1) # (nbeat = awq1[open].len) THEN "w:last"
        ELSE ""
      (* the length of a burst whose address comes after its data *)
      awbad ==
        IF New(st, rec, "aw") /\ ~GoodReq(c, rec.aw) THEN "aw:request"
        ELSE IF New(st, rec, "aw") /\ aws1 < Len(wq1) /\ Len(wq1[aws1]) # rec.aw[3] + 1 THEN "aw:length"
        ELSE ""
      arbad == IF New(st, rec, "ar") /\ ~GoodReq(c, rec.ar) THEN "ar:request" ELSE ""
      bad == IF unst # {} THEN (CHOOSE x \in unst : TRUE) \o ":stable"
             ELSE IF awbad # "" THEN awbad
             ELSE IF arbad # "" THEN arbad
             ELSE IF wbad # "" THEN wbad
             ELSE IF bbad # "" THEN bbad
             ELSE rbad
      st1 == TLCEval([st EXCEPT
                !.pv = [ch \in Chans |-> IF rec[ch] # << >> /\ rec[ch][1] = 0 THEN Tail(rec[ch]) ELSE << >>],
                !.lt = rec.t, !.aws = aws1, !.awq = awq1, !.wq = wq1,
                !.nb = IF newb THEN @ + 1 ELSE @,
                !.arq = arq1,
                !.nr = IF rlast THEN @ + 1 ELSE @,
                !.rb = IF ~newr THEN @ ELSE IF rlast THEN 0 ELSE @ + 1])
  IN TLCEval([bad |-> bad, st |-> [ports |-> [S.ports EXCEPT ![rec.p] = st1], hist |-> h3]])

(* nothing is left over: every burst announced was carried out and answered *)
Finished(c, st) ==
  /\ \A ch \in Chans : st.pv[ch] = << >>
  /\ st.aws = Len(st.awq) /\ Len(st.awq) = Len(st.wq) - 1 /\ st.wq[Len(st.wq)] = << >>
  /\ st.nb = Len(st.awq)
  /\ st.nr = Len(st.arq) /\ st.rb = 0
=============================================================================
