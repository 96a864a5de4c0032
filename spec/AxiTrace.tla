------------------------------ MODULE AxiTrace ------------------------------
(* Recorded AXI traffic of the generated hardware against Axi.tla.
   Trace: [ports, cfg, pre, recs, post]; pre and post are the accesses a thread
   made before the traffic began and after it ended.                          *)
EXTENDS Axi, TLC, TLCExt, IOUtils, Json

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, S, bad, ph
vars == <<tid, l, S, bad, ph>>

T == Traces[tid]
TInit == /\ tid \in 1..Len(Traces)
         /\ l = 1 /\ bad = "" /\ ph = "pre"
         /\ S = Init0(Traces[tid].ports)

Verdict(v, why, det) == PrintT(<<"VERDICT", tid, v, l, why, det>>)
List == IF ph = "pre" THEN T.pre ELSE IF ph = "recs" THEN T.recs ELSE T.post
Thread(o) == IF o[1] = "w"
             THEN [bad |-> "", st |-> [S EXCEPT !.hist = ThreadWrite(T.cfg, @, o[2], o[3])]]
             ELSE [bad |-> IF ThreadRead(T.cfg, S.hist, o[2], o[3]) THEN "" ELSE "thread:read", st |-> S]
TNext ==
  /\ bad = "" /\ ph # "end" /\ UNCHANGED tid
  /\ IF l <= Len(List)
     THEN /\ \E n \in {IF ph = "recs" THEN Step(T.cfg, S, T.recs[l]) ELSE Thread(List[l])} :
                bad' = n.bad /\ S' = n.st
          /\ l' = l + 1 /\ ph' = ph
          /\ (bad' # "" => Verdict("bad", bad', [rec |-> List[l],
                 live |-> IF ph = "recs" THEN << >> ELSE [a \in Touched(List[l][2], List[l][3]) |-> Live(T.cfg, S.hist, a)]]))
     ELSE IF ph = "pre" THEN ph' = "recs" /\ l' = 1 /\ UNCHANGED <<S, bad>>
     ELSE IF ph = "recs" THEN
          LET left == {p \in 1..T.ports : ~Finished(T.cfg, S.ports[p])}
          IN IF left = {} THEN ph' = "post" /\ l' = 1 /\ UNCHANGED <<S, bad>>
             ELSE /\ bad' = "completion" /\ UNCHANGED <<S, ph, l>>
                  /\ Verdict("bad", "completion",
                         [p \in left |-> [aw |-> Len(S.ports[p].awq), aws |-> S.ports[p].aws,
                                          w |-> Len(S.ports[p].wq), b |-> S.ports[p].nb,
                                          ar |-> Len(S.ports[p].arq), r |-> S.ports[p].nr]])
     ELSE ph' = "end" /\ UNCHANGED <<S, bad, l>> /\ Verdict("ok", "", "")
=============================================================================
