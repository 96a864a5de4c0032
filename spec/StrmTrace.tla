----------------------------- MODULE StrmTrace -----------------------------
(* Runs of a thread-controlled stream.  A trace is
     nodes  the operator graph; its input nodes read a token, the sequence of
            the values of the sources, the parameters and the run marker (1 at
            the first element of a run)
     mem    initial contents of every memory and FIFO (words, bits)
     runs   the runs in order; a run is a record
              n     number of elements
              src   per source <<kind, memory, patterns, value>>; kind "ram":
                    patterns is a sequence of <<offset, <<size, stride>> ..>>
                    (innermost first), "fifo", "empty"
              par   parameter values (bits)
              snk   per sink <<node, when node or 0, kind, memory, patterns, size>>
              dump  what was seen after the run: <<memory, words>>, each word an
                    index in vals
     vals   table of the words seen                                          *)
EXTENDS Flow, Json, IOUtils
Traces == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES tid, l, v, mem, hist
vars == <<tid, l, v, mem, hist>>

(* the addresses of one pattern <<offset, <<size, stride>>, ..>>, innermost first *)
RECURSIVE Nest(_,_,_), Addrs(_,_)
Nest(p, d, base) ==
  IF d = 1 THEN <<base>>
  ELSE LET F[k \in 0..p[d][1]] == IF k = 0 THEN <<>>
                                  ELSE F[k - 1] \o Nest(p, d - 1, base + (k - 1) * p[d][2])
       IN F[p[d][1]]
Addrs(ps, i) == IF i > Len(ps) THEN <<>> ELSE Nest(ps[i], Len(ps[i]), ps[i][1]) \o Addrs(ps, i + 1)

Elem(m, s, k) ==
  CASE s[1] = "ram" -> LET a == Addrs(s[3], 1)[k] IN m[s[2]][(a % Len(m[s[2]])) + 1]
    [] s[1] = "fifo" -> m[s[2]][k]
    [] s[1] = "empty" -> s[4]
Tokens(r, m) ==
  LET A == TLCEval([j \in 1..Len(r.src) |-> IF r.src[j][1] = "ram" THEN Addrs(r.src[j][3], 1) ELSE <<>>])
      E(j, k) == CASE r.src[j][1] = "ram" -> m[r.src[j][2]][(A[j][k] % Len(m[r.src[j][2]])) + 1]
                   [] r.src[j][1] = "fifo" -> m[r.src[j][2]][k]
                   [] r.src[j][1] = "empty" -> r.src[j][4]
  IN TLCEval([k \in 1..r.n |-> [j \in 1..Len(r.src) |-> E(j, k)] \o r.par \o <<<<IF k = 1 THEN 1 ELSE 0>>>>])
(* a word of width w as it is stored in a memory of width of its words *)
Fit(b, w) == IF Len(b) = 0 THEN b ELSE IF Len(b) >= w THEN SubSeq(b, 1, w) ELSE b \o Zero(w - Len(b))
WordW(t, x) == t.width[x]
(* the elements a sink takes: those its condition selects, at most size (size 0: all) *)
Taken(h, s) == SelectSeq(h, LAMBDA e : s[2] = 0 \/ (e.b[s[2]] # <<>> /\ RedOr(e.b[s[2]])))
Known(h, s) == s[2] = 0 \/ \A k \in 1..Len(h) : h[k].b[s[2]] # <<>>
Mark == <<7>>
RECURSIVE Write(_,_,_,_,_,_,_)
Write(t, m, x, as, h, nd, k) ==
  IF k > Len(h) \/ k > Len(as) THEN m
  ELSE Write(t, [m EXCEPT ![(as[k] % Len(m)) + 1] = Fit(h[k].b[nd], t.width[x])], x, as, h, nd, k + 1)
RECURSIVE Scatter(_,_,_,_,_,_)
Scatter(t, m, x, h, s, k) ==
  IF k > Len(h) THEN m
  ELSE LET a == h[k].b[s[5]] IN
       Scatter(t, [m EXCEPT ![(Low(a) % Len(m)) + 1] = Fit(h[k].b[s[1]], t.width[x])], x, h, s, k + 1)
Sink(t, m, h, s) ==
  LET x == s[4]
      T == TLCEval(Taken(h, s))
      n == IF s[6] > 0 /\ Len(T) > s[6] THEN s[6] ELSE Len(T)
      U == SubSeq(T, 1, n)
  IN CASE s[3] = "ram" -> [m EXCEPT ![x] = Write(t, m[x], x, Addrs(s[5], 1), U, s[1], 1)]
       [] s[3] = "wram" -> [m EXCEPT ![x] = Scatter(t, m[x], x, T, s, 1)]
       (* a condition that selects fewer than size elements: see Loose *)
       [] s[3] = "fifo" -> [m EXCEPT ![x] = m[x] \o [k \in 1..n |-> Fit(U[k].b[s[1]], t.width[x])]
                                              \o (IF s[2] # 0 /\ n < s[6] THEN <<Mark>> ELSE <<>>)]
       [] s[3] = "wfifo" -> [m EXCEPT ![x] = m[x] \o [k \in 1..Len(T) |-> Fit(T[k].b[s[1]], t.width[x])]]
       [] s[3] = "imm" -> IF n = 0 THEN [m EXCEPT ![x] = <<<<>>>>] ELSE [m EXCEPT ![x] = <<Fit(U[n].b[s[1]], t.width[x])>>]
       [] OTHER -> m
RECURSIVE Sinks(_,_,_,_,_)
Sinks(t, m, h, ss, i) == IF i > Len(ss) THEN m ELSE Sinks(t, TLCEval(Sink(t, m, h, ss[i])), h, ss, i + 1)
(* FIFO items consumed by a run are gone *)
Consume(r, m) == [x \in 1..Len(m) |->
                   IF \E j \in 1..Len(r.src) : r.src[j][1] = "fifo" /\ r.src[j][2] = x
                   THEN SubSeq(m[x], r.n + 1, Len(m[x])) ELSE m[x]]

TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ v = "run"
         /\ mem = Traces[tid].mem /\ hist = <<>>
(* Known deviation: a FIFO sink whose condition selects fewer than size elements
   can take values behind the last element of the run.  What follows such a run
   in the FIFO is not checked here; one design of the harness has t.strict.   *)
Loose(m, x) == \E k \in 1..Len(m[x]) : m[x][k] = Mark
Differ(t, m, d) ==
  IF Loose(m, d[1])
  THEN LET n == (CHOOSE k \in 1..Len(m[d[1]]) : m[d[1]][k] = Mark /\ \A j \in 1..(k - 1) : m[d[1]][j] # Mark) - 1
       IN IF Len(d[2]) < n THEN {0}
          ELSE IF t.strict = 1 /\ n = Len(m[d[1]]) - 1 /\ Len(d[2]) # n THEN {0}
          ELSE {k \in 1..n : m[d[1]][k] # <<>> /\ t.vals[d[2][k]] # m[d[1]][k]}
  ELSE IF Len(d[2]) # Len(m[d[1]]) THEN {0}
  ELSE {k \in 1..Len(d[2]) : m[d[1]][k] # <<>> /\ t.vals[d[2][k]] # m[d[1]][k]}
TNext ==
  LET t == Traces[tid] IN
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(t.runs)
     THEN /\ v' = "ok" /\ UNCHANGED <<l, mem, hist>> /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE \E r \in {t.runs[l]} : \E toks \in {Tokens(r, mem)} :
          \E at \in {TLCEval(Attrs(t.nodes, 1, <<>>))} :
          (* the history before the run and the elements of the run *)
          \E h2 \in {TLCEval(Run(t.nodes, at, hist \o toks, Len(hist) + 1, hist))} :
          \E h \in {SubSeq(h2, Len(hist) + 1, Len(h2))} :
          \E m2 \in {TLCEval(Sinks(t, Consume(r, mem), h, r.snk, 1))} :
          \E bad \in {{i \in 1..Len(r.dump) : Differ(t, m2, r.dump[i]) # {}}} :
            IF bad = {}
            THEN /\ l' = l + 1 /\ v' = v /\ mem' = m2 /\ hist' = h2
            ELSE /\ v' = "bad" /\ UNCHANGED <<l, mem, hist>>
                 /\ LET i == CHOOSE x \in bad : \A y \in bad : x <= y
                        D == Differ(t, m2, r.dump[i])
                        k == CHOOSE x \in D : \A y \in D : x <= y
                    IN PrintT(<<"VERDICT", tid, "bad", l,
                                IF k = 0 THEN "count" ELSE IF k <= Len(mem[r.dump[i][1]]) /\ m2[r.dump[i][1]][k] = mem[r.dump[i][1]][k] THEN "changed" ELSE "value",
                                <<"mem", r.dump[i][1], "at", k - 1,
                                  IF k = 0 THEN <<Len(m2[r.dump[i][1]]), Len(r.dump[i][2])>> ELSE <<m2[r.dump[i][1]][k], t.vals[r.dump[i][2][k]]>>>>>>)
=============================================================================
