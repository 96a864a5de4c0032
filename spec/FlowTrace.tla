----------------------------- MODULE FlowTrace -----------------------------
(* Behaviour of a pipeline seen at its ports.  A trace is
     nodes  the operator graph
     toks   toks[j]: the tokens offered to input j (bits), in order
     hs     handshake group of each input (inputs of one group move together)
     outs   <<node, handshake group>> for every output port
     ng,no  number of input / output groups,  cone[o]: input groups it needs
     vals   table of the data words seen
     ev     per clock edge <<iv, ir, ov, or, od>>: valid and ready of every input
            group, of every output group, and the index in vals of every output
     drain  1: the run ended with all outputs ready for long enough           *)
EXTENDS Flow, Json, IOUtils
Traces == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES tid, l, v, nin, nout, last, exp
vars == <<tid, l, v, nin, nout, last, exp>>

MinN(Q) == CHOOSE x \in Q : \A y \in Q : x <= y
Toks(t) == [k \in 1..MinN({Len(t.toks[j]) : j \in 1..Len(t.toks)}) |-> [j \in 1..Len(t.toks) |-> t.toks[j][k]]]
TInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ v = "run"
         /\ nin = [g \in 1..Traces[tid].ng |-> 0] /\ nout = [g \in 1..Traces[tid].no |-> 0]
         /\ last = [g \in 1..Traces[tid].no |-> FALSE]
         /\ \E h \in {TLCEval(Values(Traces[tid].nodes, Toks(Traces[tid])))} : exp = h
Cone(t, g, n) == t.cone[g] = <<>> \/ MinN({n[c] : c \in {t.cone[g][i] : i \in 1..Len(t.cone[g])}}) > nout[g]
Width(t, o) == Attrs(t.nodes, 1, <<>>)[t.outs[o][1]][1]
ValueBad(t, e) == {o \in 1..Len(t.outs) : LET g == t.outs[o][2] IN
                     /\ e[3][g] = 1 /\ nout[g] < Len(exp)
                     /\ LET want == exp[nout[g] + 1].b[t.outs[o][1]] IN
                        want # <<>> /\ t.vals[e[5][o]] # want}
Clause(t, e) ==
  IF \E g \in 1..t.no : e[3][g] \notin {0, 1} \/ e[4][g] \notin {0, 1} THEN "unknown handshake"
  ELSE IF \E g \in 1..t.ng : e[1][g] \notin {0, 1} \/ e[2][g] \notin {0, 1} THEN "unknown handshake"
  ELSE IF \E g \in 1..t.no : last[g] /\ e[3][g] = 0 THEN "valid withdrawn"
  ELSE IF \E g \in 1..t.no : e[3][g] = 1 /\ ~Cone(t, g, [c \in 1..t.ng |-> nin[c] + e[1][c]]) THEN "output without input"
  ELSE IF ValueBad(t, e) # {} THEN "value"
  ELSE ""
Final(t) ==
  IF t.drain = 1 /\ \E g \in 1..t.no : Cone(t, g, nin) /\ t.cone[g] # <<>> THEN "token lost"
  ELSE IF t.drain = 1 /\ \E g \in 1..t.ng : nin[g] = 0 THEN "no progress"
  ELSE ""
TNext ==
  LET t == Traces[tid] IN
  /\ v = "run" /\ UNCHANGED <<tid, exp>>
  /\ IF l > Len(t.ev)
     THEN \E c \in {Final(t)} :
          /\ v' = (IF c = "" THEN "ok" ELSE "bad") /\ UNCHANGED <<l, nin, nout, last>>
          /\ PrintT(<<"VERDICT", tid, IF c = "" THEN "ok" ELSE "bad", l, c, nin, nout>>)
     ELSE \E e \in {t.ev[l]} : \E c \in {Clause(t, e)} :
          IF c # ""
          THEN /\ v' = "bad" /\ UNCHANGED <<l, nin, nout, last>>
               /\ PrintT(<<"VERDICT", tid, "bad", l, c,
                           IF c = "value"
                           THEN LET o == CHOOSE x \in ValueBad(t, e) : \A y \in ValueBad(t, e) : t.outs[x][1] <= t.outs[y][1] IN
                                <<"node", t.outs[o][1], "token", nout[t.outs[o][2]] + 1,
                                  exp[nout[t.outs[o][2]] + 1].b[t.outs[o][1]], t.vals[e[5][o]]>>
                           ELSE <<"node", t.outs[1][1], nin, nout>>>>)
          ELSE /\ l' = l + 1 /\ v' = v
               /\ nin' = [g \in 1..t.ng |-> nin[g] + e[1][g] * e[2][g]]
               /\ nout' = [g \in 1..t.no |-> nout[g] + e[3][g] * e[4][g]]
               /\ last' = [g \in 1..t.no |-> e[3][g] = 1 /\ e[4][g] = 0]
=============================================================================
