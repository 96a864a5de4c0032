-------------------------------- MODULE RamMC --------------------------------
(* A RAM of Banks banks (a word a lives in bank a mod Banks at a div Banks, the bank of the
   last request of each port selects its read data) is one flat RAM; and a read returns
   the word written last, whatever the ports do in between.                         *)
EXTENDS Ram
CONSTANTS Banks, Depth, Ports, Words
VARIABLES flat, bank, sel, last
vars == <<flat, bank, sel, last>>
Addrs == 0..(Banks * Depth - 1)
Reqs == [en : BOOLEAN, we : BOOLEAN, a : Addrs, d : Words]
BReq(req, b) == [p \in 1..Ports |-> [en |-> req[p].en /\ req[p].a % Banks = b, we |-> req[p].we,
                                     a |-> req[p].a \div Banks, d |-> req[p].d]]
Init == /\ flat = [mem |-> [a \in Addrs |-> Any], rd |-> [p \in 1..Ports |-> Any]]
        /\ bank = [b \in 0..Banks-1 |-> [mem |-> [a \in 0..Depth-1 |-> Any], rd |-> [p \in 1..Ports |-> Any]]]
        /\ sel = [p \in 1..Ports |-> 0]
        /\ last = [a \in Addrs |-> {Any}]
Legal(req) == \A p, q \in 1..Ports : p < q /\ req[p].en /\ req[q].en /\ req[p].we /\ req[q].we => req[p].a # req[q].a
Norm(r) == (r.en \/ (r.we = FALSE /\ r.a = 0 /\ r.d = CHOOSE w \in Words : TRUE)) /\ (r.we \/ r.d = CHOOSE w \in Words : TRUE)
Next == \E req \in [1..Ports -> {r \in Reqs : Norm(r)}] :
  /\ Legal(req)
  /\ flat' \in Step(flat, req)
  /\ bank' = [b \in 0..Banks-1 |-> CHOOSE s \in Step(bank[b], BReq(req, b)) : TRUE]
  /\ sel' = [p \in 1..Ports |-> IF req[p].en THEN req[p].a % Banks ELSE sel[p]]
  /\ last' = [a \in Addrs |-> IF Writers(req, a) = {} THEN last[a] ELSE {req[p].d : p \in Writers(req, a)}]
Spec == Init /\ [][Next]_vars
Same == /\ \A a \in Addrs : flat.mem[a] = bank[a % Banks].mem[a \div Banks]
        /\ \A p \in 1..Ports : flat.rd[p] = bank[sel[p]].rd[p]
LastWritten == \A a \in Addrs : flat.mem[a] \in last[a]
(* the one-cycle latency and the hold of an idle port *)
ReadLaw == [][\A p \in 1..Ports : \E req \in Reqs : Norm(req) /\
               flat'.rd[p] = Reads(flat, [q \in {p} |-> req])[p]]_vars
=============================================================================
