----------------------------- MODULE ThreadTrace -----------------------------
(* Prints, object writes and the end of real synthesized threads against ThreadSem. *)
EXTENDS ThreadSem, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLE tid
\* the first difference between what the specification prints and what was seen
Diff(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
              IN IF \E i \in 1..n : a[i] # b[i] THEN CHOOSE i \in 1..n : a[i] # b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
                 ELSE IF Len(a) # Len(b) THEN n + 1 ELSE 0
At(s, i) == IF i \in DOMAIN s THEN s[i] ELSE <<"nothing">>
Verdict(t) ==
  LET T == Traces[t]
      r == Run(T.fns, "main", T.args, T.g)
      d == Diff(r.s.out, T.out)
  IN IF d # 0 THEN PrintT(<<"VERDICT", t, "bad", d, "print", [expected |-> At(r.s.out, d), seen |-> At(T.out, d)]>>)
     ELSE IF T.done # 1 THEN PrintT(<<"VERDICT", t, "bad", Len(T.out), "the thread does not end", 0>>)
     ELSE IF r.s.g # T.gend THEN PrintT(<<"VERDICT", t, "bad", Len(T.out), "object", [expected |-> r.s.g, seen |-> T.gend]>>)
     ELSE PrintT(<<"VERDICT", t, "ok", Len(T.out), "", 0>>)
TInit == tid = 0
TNext == tid < Len(Traces) /\ Verdict(tid + 1) /\ tid' = tid + 1
=============================================================================
