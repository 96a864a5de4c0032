------------------------------- MODULE FlowMC ------------------------------
(* Elastic pipeline stages: one register with a valid bit per operator, forks
   and joins.  A stage accepts when it is empty or its consumers take its
   token; a source's ready is the conjunction over all its consumers.
   For every schedule of input valids and output readies each output emits
   token 1, 2, 3, .. (operands paired by position), nothing is lost or
   duplicated, and what is accepted eventually comes out.
   The generated circuits have Together = FALSE: a source waits for its own
   consumers only.  That is right for trees (no source with two consumers,
   graphs 1 and 6) under every schedule, and for all graphs when the inputs
   are offered together and the outputs accepted together (Lock).  Without
   Lock, graphs 2, 3, 4 and 7 lose tokens (known finding); Together = TRUE, where a source
   waits for all consumers of the sources it is joined with, repairs them.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS G, K, Together, Lock
(* a source is <<"i", j>> or <<"n", m>>; outs are node numbers *)
Graph ==
  CASE G = 1 -> [ni |-> 2, nodes |-> << << <<"i", 1>>, <<"i", 2>> >>, << <<"n", 1>> >> >>, outs |-> <<2>>]
    [] G = 2 -> [ni |-> 1, nodes |-> << << <<"i", 1>> >>, << <<"i", 1>> >>, << <<"n", 1>>, <<"n", 2>> >>, << <<"n", 2>> >> >>, outs |-> <<3, 4>>]
    [] G = 3 -> [ni |-> 2, nodes |-> << << <<"i", 1>> >>, << <<"i", 2>> >>, << <<"n", 1>>, <<"n", 2>> >>,
                                        << <<"n", 2>> >> >>, outs |-> <<3, 4>>]
    [] G = 4 -> [ni |-> 2, nodes |-> << << <<"i", 1>> >>, << <<"n", 1>> >>, << <<"i", 2>> >>, << <<"n", 3>> >>,
                                        << <<"n", 2>>, <<"n", 4>> >>, << <<"n", 2>> >> >>, outs |-> <<5, 6>>]
    [] G = 5 -> [ni |-> 2, nodes |-> << << <<"i", 1>> >>, << <<"i", 2>> >>, << <<"n", 1>>, <<"n", 2>> >>,
                                        << <<"n", 2>> >>, << <<"n", 3>>, <<"n", 4>> >> >>, outs |-> <<5>>]
    [] G = 6 -> [ni |-> 3, nodes |-> << << <<"i", 1>>, <<"i", 2>> >>, << <<"i", 3>> >>, << <<"n", 1>>, <<"n", 2>> >> >>, outs |-> <<3>>]
    [] G = 7 -> [ni |-> 3, nodes |-> << << <<"i", 1>>, <<"i", 2>> >>, << <<"i", 2>>, <<"i", 3>> >>, << <<"n", 1>>, <<"n", 2>> >> >>, outs |-> <<3>>]
N == Len(Graph.nodes)
VARIABLES vld, dat, iv, nin, or, out, bad
vars == <<vld, dat, iv, nin, or, out, bad>>

SrcV(s) == IF s[1] = "i" THEN iv[s[2]] ELSE vld[s[2]]
SrcD(s) == IF s[1] = "i" THEN nin[s[2]] + 1 ELSE dat[s[2]]
AllV(n) == \A i \in 1..Len(Graph.nodes[n]) : SrcV(Graph.nodes[n][i])
Sinks(s) == {k \in 1..N : \E i \in 1..Len(Graph.nodes[k]) : Graph.nodes[k][i] = s}
OutsOf(s) == {p \in 1..Len(Graph.outs) : s = <<"n", Graph.outs[p]>>}
(* sources that share a consumer are consumed together: the ready of each of
   them waits for all consumers of the whole group                          *)
Sources == {<<"i", j>> : j \in 1..Graph.ni} \cup {<<"n", n>> : n \in 1..N}
RECURSIVE Close(_)
Close(S) == LET T == S \cup {s \in Sources : \E n \in 1..N, u \in S : n \in Sinks(s) /\ n \in Sinks(u)}
            IN IF T = S THEN S ELSE Close(T)
Group(s) == IF Together THEN Close({s}) ELSE {s}
RECURSIVE Ready(_), Acc(_)
Acc(n) == ~vld[n] \/ Ready(<<"n", n>>)
Ready(s) == \A u \in Group(s) :
              /\ \A k \in Sinks(u) : Acc(k) /\ AllV(k)
              /\ \A p \in OutsOf(u) : or[p]
Take(n) == Acc(n) /\ \A i \in 1..Len(Graph.nodes[n]) : Ready(Graph.nodes[n][i])
Join(n) == LET d == {SrcD(Graph.nodes[n][i]) : i \in 1..Len(Graph.nodes[n])}
           IN IF Cardinality(d) = 1 THEN CHOOSE x \in d : TRUE ELSE 0

Init == /\ vld = [n \in 1..N |-> FALSE] /\ dat = [n \in 1..N |-> 0]
        /\ iv = [j \in 1..Graph.ni |-> FALSE] /\ nin = [j \in 1..Graph.ni |-> 0]
        /\ or \in {[o \in 1..Len(Graph.outs) |-> r] : r \in BOOLEAN} /\ out = [o \in 1..Len(Graph.outs) |-> 0] /\ bad = FALSE
Fire(j) == iv[j] /\ Ready(<<"i", j>>)
Next ==
  /\ vld' = [n \in 1..N |-> IF Take(n) THEN AllV(n) ELSE IF vld[n] /\ Ready(<<"n", n>>) THEN FALSE ELSE vld[n]]
  /\ dat' = [n \in 1..N |-> IF Take(n) /\ AllV(n) THEN Join(n) ELSE dat[n]]
  /\ nin' = [j \in 1..Graph.ni |-> nin[j] + (IF Fire(j) THEN 1 ELSE 0)]
  /\ iv' \in {f \in [1..Graph.ni -> BOOLEAN] : \A j \in 1..Graph.ni :
                /\ (iv[j] /\ ~Fire(j)) => f[j]
                /\ f[j] => nin[j] + (IF Fire(j) THEN 1 ELSE 0) < K
                /\ Lock => (f[j] = f[1] \/ (iv[j] /\ ~Fire(j)) \/ (iv[1] /\ ~Fire(1)))}
  /\ or' \in {r \in [1..Len(Graph.outs) -> BOOLEAN] : Lock => Cardinality({r[o] : o \in 1..Len(Graph.outs)}) = 1}
  /\ out' = [o \in 1..Len(Graph.outs) |-> out[o] + (IF vld[Graph.outs[o]] /\ Ready(<<"n", Graph.outs[o]>>) THEN 1 ELSE 0)]
  /\ bad' = (bad \/ \E o \in 1..Len(Graph.outs) : vld[Graph.outs[o]] /\ dat[Graph.outs[o]] # out[o] + 1)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
InOrder == ~bad
Causal == \A o \in 1..Len(Graph.outs) : out[o] <= Min({nin[j] : j \in 1..Graph.ni}) \/ Graph.ni > 1
Stable == [][\A o \in 1..Len(Graph.outs) : LET n == Graph.outs[o] IN
              (vld[n] /\ ~Ready(<<"n", n>>)) => (vld'[n] /\ dat'[n] = dat[n])]_vars
(* with every output ready and every input offered, something moves *)
Progress == ((\A o \in 1..Len(Graph.outs) : or[o]) /\ (\A j \in 1..Graph.ni : iv[j])) =>
              \/ \E j \in 1..Graph.ni : Fire(j)
              \/ \E n \in 1..N : vld[n] /\ Ready(<<"n", n>>)
              \/ \E n \in 1..N : Take(n)
Empty == (\A n \in 1..N : ~vld[n]) => \A o \in 1..Len(Graph.outs) : out[o] = nin[1] \/ Graph.ni > 1
Spec == Init /\ [][Next]_vars
=============================================================================
