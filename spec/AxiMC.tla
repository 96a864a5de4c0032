------------------------------- MODULE AxiMC -------------------------------
(* A compliant master and a compliant memory, closed: the rules of Axi.tla accept
   every behaviour (Sound) and, whenever no write is outstanding, leave exactly the
   memory's real contents as possible values (Exact).                             *)
EXTENDS Axi, TLC
CONSTANTS NW, NR, MaxLen, Addrs, TMax, Early

VARIABLES S, bad, t, mem, aw, w, b, ar, r,   \* channels: << >> or payload shown
          script, ai, wi, ri,                \* master's position
          bq, todo, rq, rdata                \* slave: bursts, writes to apply, reads
vars == <<S, bad, t, mem, aw, w, b, ar, r, script, ai, wi, ri, bq, todo, rq, rdata>>

c == [bytes |-> 1, size |-> 0, mem |-> TRUE, announced |-> ~Early, img |-> << >>, wordbytes |-> 0]
Reqs == {q \in Addrs \X (0..MaxLen) : \A k \in 0..q[2] : q[1] + k \in Addrs}
Scripts == [W : [1..NW -> Reqs], R : [1..NR -> Reqs], dep : 0..NW]

Init == /\ S = Init0(1) /\ bad = "" /\ t = 0 /\ mem = [a \in Addrs |-> 0]
        /\ aw = << >> /\ w = << >> /\ b = << >> /\ ar = << >> /\ r = << >>
        /\ script \in Scripts
        /\ ai = 0 /\ wi = << 0, 0 >> /\ ri = 0 /\ bq = << >> /\ todo = << >> /\ rq = << >> /\ rdata = 0
\* wi = <<bursts completely shown, beats shown of the next>>

Aws(i) == <<script.W[i][1], script.W[i][2], 0, 0, 1>>
Ars(i) == <<script.R[i][1], script.R[i][2], 0, 0, 1>>
Val(i, k) == 10 * i + k
\* beats (i,k) handshaken and their addresses handshaken, applied in order at any time
Bool == {0, 1}

(* one cycle: the shown channels with a choice of ready; then new values are chosen *)
Rec(ra, rw, rb, rr, rd) ==
  [t |-> t, p |-> 1,
   aw |-> IF aw = << >> THEN << >> ELSE <<ra>> \o aw,
   w  |-> IF w = << >> THEN << >> ELSE <<rw>> \o w,
   b  |-> IF b = << >> THEN << >> ELSE <<rb>> \o b,
   ar |-> IF ar = << >> THEN << >> ELSE <<rr>> \o ar,
   r  |-> IF r = << >> THEN << >> ELSE <<rd>> \o r]

Next ==
  /\ t < TMax /\ bad = ""
  /\ \E ra, rw, rb, rr, rd \in Bool :
     /\ (aw = << >> => ra = 0) /\ (w = << >> => rw = 0) /\ (b = << >> => rb = 0)
     /\ (ar = << >> => rr = 0) /\ (r = << >> => rd = 0)
     /\ \E n \in {Step(c, S, Rec(ra, rw, rb, rr, rd))} :
           /\ S' = n.st /\ bad' = n.bad /\ t' = t + 1
           (* slave bookkeeping after the handshakes of this cycle *)
           /\ LET st == n.st.ports[1]
                  acc == {<<i, k>> \in (1..NW) \X (1..(MaxLen + 1)) :
                            i <= Len(st.awq) /\ i <= Len(st.wq) /\ k <= Len(st.wq[i])}
                  rq1 == IF rr = 1 THEN Append(rq, <<ar[1], ar[2], 0>>) ELSE rq
              IN (* apply any number of further writes, in order *)
                 \E m \in 0..2 :
                   LET cand == {p \in acc : \A x \in 1..Len(todo) : todo[x] # p}
                       first(C) == CHOOSE p \in C : \A q \in C : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
                       f1 == IF m >= 1 /\ cand # {} THEN << first(cand) >> ELSE << >>
                       cand2 == IF f1 = << >> THEN {} ELSE cand \ {f1[1]}
                       f2 == IF m >= 2 /\ cand2 # {} THEN << first(cand2) >> ELSE << >>
                       ap == f1 \o f2
                       ok(p) == script.W[p[1]][1] + p[2] - 1
                       mem1 == [a \in Addrs |->
                                 IF Len(ap) = 2 /\ ok(ap[2]) = a THEN Val(ap[2][1], ap[2][2])
                                 ELSE IF Len(ap) >= 1 /\ ok(ap[1]) = a THEN Val(ap[1][1], ap[1][2])
                                 ELSE mem[a]]
                       todo1 == todo \o ap
                       full(i) == i <= Len(st.awq) /\ i < Len(st.wq)
                                  /\ \A k \in 1..(script.W[i][2] + 1) : \E x \in 1..Len(todo1) : todo1[x] = <<i, k>>
                   IN /\ (m = 0 \/ Len(ap) = m)
                      /\ mem' = mem1 /\ todo' = todo1
                      (* next B *)
                      /\ LET free == b = << >> \/ rb = 1
                         IN \E sh \in Bool :
                             /\ (sh = 1 => free /\ full(st.nb + 1))
                             /\ b' = IF sh = 1 THEN << 0, 0 >> ELSE IF free THEN << >> ELSE b
                      (* next R: sample the memory as it is now *)
                      /\ LET free == r = << >> \/ rd = 1
                             q == rq1
                         IN \E sh \in Bool :
                             /\ (sh = 1 => free /\ Len(q) > 0)
                             /\ r' = IF sh = 1 THEN << IF q[1][3] = q[1][2] THEN 1 ELSE 0, 0, 0, << mem1[q[1][1] + q[1][3]] >> >>
                                     ELSE IF free THEN << >> ELSE r
                             /\ rq' = IF sh = 1 THEN (IF q[1][3] = q[1][2] THEN Tail(q)
                                                      ELSE [q EXCEPT ![1] = <<q[1][1], q[1][2], q[1][3] + 1>>])
                                      ELSE q
           (* master: next address, data, read *)
           /\ LET free == aw = << >> \/ ra = 1
              IN \E sh \in Bool :
                   /\ (sh = 1 => free /\ ai < NW)
                   /\ ai' = ai + sh
                   /\ aw' = IF sh = 1 THEN Aws(ai + 1) ELSE IF free THEN << >> ELSE aw
           /\ LET free == w = << >> \/ rw = 1
              IN \E sh \in Bool :
                   /\ (sh = 1 => free /\ wi[1] < NW /\ (Early \/ wi[1] < ai'))
                   /\ IF sh = 1
                      THEN LET i == wi[1] + 1 k == wi[2] + 1 lst == (k = script.W[i][2] + 1)
                           IN /\ w' = << IF lst THEN 1 ELSE 0, <<1>>, << Val(i, k) >> >>
                              /\ wi' = IF lst THEN <<i, 0>> ELSE <<wi[1], k>>
                      ELSE w' = (IF free THEN << >> ELSE w) /\ wi' = wi
           /\ LET free == ar = << >> \/ rr = 1
              IN \E sh \in Bool :
                   /\ (sh = 1 => free /\ ri < NR /\ n.st.ports[1].nb >= script.dep)
                   /\ ri' = ri + sh
                   /\ ar' = IF sh = 1 THEN Ars(ri + 1) ELSE IF free THEN << >> ELSE ar
  /\ UNCHANGED <<script, bq, rdata>>

Sound == bad = ""
Exact == LET st == S.ports[1]
             idle == st.nb = Len(st.awq) /\ Len(st.wq) - 1 = st.nb /\ st.wq[Len(st.wq)] = << >>
         IN \A a \in Addrs : mem[a] \in Live(c, S.hist, a)
                /\ (idle => Live(c, S.hist, a) = {mem[a]})
=============================================================================
