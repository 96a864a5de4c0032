------------------------------- MODULE StrmMC -------------------------------
(* Closed model of the mechanism behind a thread-controlled stream.  A source
   engine reads a memory (one element a cycle), an accumulator and a slower path
   are balanced by a delay register, a sink engine writes what arrives for as
   many elements as it was told.  Neither engine sees the other: the settings of
   a sink and its start pass through a delay line of the length of the pipeline.
   The environment may stall everything in every cycle, and the thread may be
   late by any number of cycles.  When the thread has seen a run end, memory is
   what the runs, one after the other and each in one step, make of it.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS A, Runs, Ns, Strides
LAT == 4
VARIABLES set,      \* the settings of the runs
          mode,     \* "join": wait for the run; "overlap": wait for its source only
          pc, r,    \* the thread
          mem,      \* <<source memory, sink memory>>
          sreg,     \* source settings
          run,      \* start request
          src,      \* source engine: [on, n, a, m, first]
          rq,       \* word read: [v, d, f]
          acc, b1, a2, b2, o, vs,
          cfgl, stl,\* delay lines of sink settings and sink start
          kreg,     \* sink settings
          snk       \* sink engine [on, n, a, s]
vars == <<set, mode, pc, r, mem, sreg, run, src, rq, acc, b1, a2, b2, o, vs, cfgl, stl, kreg, snk>>

None == [n |-> 0, a |-> 0, s |-> 0, m |-> 1]
Off == [on |-> FALSE, n |-> 0, a |-> 0, s |-> 0, m |-> 1, f |-> FALSE]
Ad(a) == a % A
(* the atomic meaning of one run *)
RECURSIVE Go(_,_,_,_)
Go(M, c, k, sum) ==
  IF k >= c.n THEN M
  ELSE LET x == M[c.m][Ad(c.a + k * c.s) + 1]
           s2 == (sum + x) % 8
       IN Go([M EXCEPT ![2][Ad(c.b + k * c.t) + 1] = (s2 + x * 2 + 1) % 8], c, k + 1, s2)
RECURSIVE Ref(_,_)
Ref(M, k) == IF k = 0 THEN M ELSE Go(Ref(M, k - 1), set[k], 0, 0)
Mem0 == <<[i \in 1..A |-> (i * 3) % 8], [i \in 1..A |-> 7]>>
(* a run that reads the memory it writes sees its own writes late: not used *)
Cfg == [n : Ns, a : {0, 1}, s : Strides, m : {1}, b : {0, 2}, t : Strides]
Init ==
  /\ mode \in {"join", "overlap"}
  /\ set \in [1..Runs -> Cfg]
  /\ pc = "src" /\ r = 1 /\ mem = Mem0 /\ sreg = None /\ run = FALSE
  /\ src = Off /\ rq = [v |-> FALSE, d |-> 5, f |-> FALSE]
  /\ acc = 0 /\ b1 = 5 /\ a2 = 5 /\ b2 = 5 /\ o = 5 /\ vs = <<FALSE, FALSE, FALSE>>
  /\ cfgl = [i \in 1..LAT |-> None] /\ stl = [i \in 1..LAT |-> FALSE]
  /\ kreg = None /\ snk = Off

(* what the thread does in this cycle: nothing, or its next operation *)
CanSrc == pc = "src"
CanSnk == pc = "snk"
CanRun == pc = "run"
Started == ~run
Busy == run \/ src.on
Drained == ~Busy /\ ~rq.v /\ ~vs[1] /\ ~vs[2] /\ ~vs[3] /\ (\A i \in 1..LAT : ~stl[i]) /\ ~snk.on
Move(p) == pc' = p /\ r' = r
Late == UNCHANGED <<pc, r, sreg>>
ThreadSrc == /\ CanSrc /\ Move("snk")
             /\ sreg' = [n |-> set[r].n, a |-> set[r].a, s |-> set[r].s, m |-> set[r].m]
ThreadRun == CanRun /\ Move("started") /\ UNCHANGED sreg
ThreadStarted == pc = "started" /\ Started /\ Move("wait") /\ UNCHANGED sreg
ThreadWait == /\ pc = "wait" /\ UNCHANGED sreg
              /\ IF mode = "join" \/ r = Runs THEN Drained ELSE ~Busy
              /\ IF r = Runs THEN pc' = "done" /\ r' = r ELSE pc' = "src" /\ r' = r + 1

Compute(sk) ==   \* one cycle of everything but the thread; sk: sink settings that enter the delay line
  LET start == run /\ ~src.on
      word == mem[src.m][Ad(src.a) + 1]
      last == cfgl[LAT]
      sst == stl[LAT]
      kr == IF last.n > 0 THEN last ELSE kreg
  IN /\ src' = IF start THEN [on |-> TRUE, n |-> sreg.n, a |-> sreg.a, s |-> sreg.s, m |-> sreg.m, f |-> TRUE]
               ELSE IF src.on THEN [src EXCEPT !.n = @ - 1, !.a = @ + src.s, !.f = FALSE, !.on = src.n > 1] ELSE src
     /\ rq' = [v |-> src.on, d |-> word, f |-> src.f /\ src.on]
     (* three stages: the accumulator waits one stage for the other path *)
     /\ acc' = IF rq.v THEN ((IF rq.f THEN 0 ELSE acc) + rq.d) % 8 ELSE acc
     /\ b1' = (rq.d * 2) % 8
     /\ a2' = acc /\ b2' = (b1 + 1) % 8
     /\ o' = (a2 + b2) % 8
     /\ vs' = <<rq.v, vs[1], vs[2]>>
     /\ cfgl' = <<sk>> \o SubSeq(cfgl, 1, LAT - 1)
     /\ stl' = <<start>> \o SubSeq(stl, 1, LAT - 1)
     /\ kreg' = kr
     /\ IF snk.on
        THEN /\ mem' = [mem EXCEPT ![2][Ad(snk.a) + 1] = o]
             /\ snk' = IF snk.n = 1 THEN IF sst THEN [Off EXCEPT !.on = TRUE, !.n = kr.n, !.a = kr.a, !.s = kr.s] ELSE Off
                       ELSE [snk EXCEPT !.n = @ - 1, !.a = @ + snk.s]
        ELSE /\ mem' = mem
             /\ snk' = IF sst THEN [Off EXCEPT !.on = TRUE, !.n = kr.n, !.a = kr.a, !.s = kr.s] ELSE snk
     /\ run' = IF start THEN (pc' = "started" /\ pc = "run") ELSE run \/ (pc' = "started" /\ pc = "run")
Hold == UNCHANGED <<src, rq, acc, b1, a2, b2, o, vs, cfgl, stl, kreg, snk, mem>>
        /\ run' = (run \/ (pc' = "started" /\ pc = "run"))
ThreadAny == ThreadSrc \/ ThreadRun \/ ThreadStarted \/ ThreadWait
Tick == /\ UNCHANGED <<set, mode>>
        /\ \/ /\ CanSnk /\ Move("run") /\ UNCHANGED sreg      \* waits for a cycle without stall
              /\ Compute([n |-> set[r].n, a |-> set[r].b, s |-> set[r].t, m |-> 2])
           \/ (Late \/ ThreadAny) /\ Compute(None)
Stall == /\ UNCHANGED <<set, mode>> /\ (Late \/ ThreadAny) /\ Hold
Prompt == /\ UNCHANGED <<set, mode>>
          /\ \/ CanSnk /\ Move("run") /\ UNCHANGED sreg /\ Compute([n |-> set[r].n, a |-> set[r].b, s |-> set[r].t, m |-> 2])
             \/ ThreadAny /\ Compute(None)
Next == Tick \/ Stall
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ SF_vars(Prompt)

(* what is in memory once the thread knows that its runs are over *)
Atomic == /\ pc = "done" => mem = Ref(Mem0, Runs)
          /\ (mode = "join" /\ pc = "src") => mem = Ref(Mem0, r - 1)
(* nothing is ever written that a run does not write *)
Writes(k) == {Ad(set[k].b + i * set[k].t) : i \in 0..(set[k].n - 1)}
Frame == \A i \in 1..A : mem[2][i] # 7 => \E k \in 1..Runs : (i - 1) \in Writes(k)
(* an element that is written is one of a run *)
Aligned == snk.on => vs[3]
Ends == <>(pc = "done")
=============================================================================
