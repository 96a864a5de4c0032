------------------------------- MODULE Names -------------------------------
(* The name space of a module and of the generate scopes inside it.             *)
(* tab: sequence of definitions [scope, name, slot, kind, obj]; par: parent of a  *)
(* scope (0 for the module itself).  Slots: "port", "var", "obj".               *)
EXTENDS Integers, Sequences, FiniteSets
PortKinds == {"Input", "Output", "Inout"}
SlotOf(k) == IF k \in PortKinds THEN "port" ELSE IF k \in {"Wire", "Reg"} THEN "var" ELSE "obj"
Own(tab, s, n) == {i \in 1..Len(tab) : tab[i].scope = s /\ tab[i].name = n}
RECURSIVE Visible(_, _, _, _), Find(_, _, _, _)
Visible(tab, par, s, n) == Own(tab, s, n) # {} \/ (par[s] # 0 /\ Visible(tab, par, par[s], n))
(* the object a look-up returns: the port if there is one; 0 for none           *)
Find(tab, par, s, n) ==
  LET o == Own(tab, s, n)
      p == {i \in o : tab[i].slot = "port"}
  IN IF p # {} THEN tab[CHOOSE i \in p : TRUE].obj
     ELSE IF o # {} THEN tab[CHOOSE i \in o : TRUE].obj
     ELSE IF par[s] # 0 THEN Find(tab, par, par[s], n) ELSE 0
(* kinds that may implement / declare one another under one name                *)
Pair(old, new) ==
  \/ old = "Output" /\ new \in {"Wire", "Reg"}
  \/ old = "Input" /\ new = "Wire"
  \/ old = "Wire" /\ new \in PortKinds
  \/ old = "Reg" /\ new = "Output"
MayPair(old, new) == old = "Inout" /\ new = "Wire"
(* "yes": must be accepted, "no": must be rejected, "any": either               *)
Verdict(tab, par, s, n, k, copy) ==
  LET o == Own(tab, s, n)
      ks == {tab[i].kind : i \in o}
  IN IF ~Visible(tab, par, s, n) THEN "yes"
     ELSE IF o = {} THEN "no"
     ELSE IF copy /\ (\E x \in ks : x = k /\ (k \in PortKinds \/ k = "Parameter")) THEN "yes"
     ELSE IF Cardinality(o) = 1 /\ (\A x \in ks : Pair(x, k)) THEN "yes"
     ELSE IF Cardinality(o) = 1 /\ (\A x \in ks : MayPair(x, k)) THEN "any"
     ELSE "no"
Put(tab, s, n, k, obj) ==
  IF k = "OutputReg"
  THEN tab \o << [scope |-> s, name |-> n, slot |-> "port", kind |-> "Output", obj |-> obj],
                 [scope |-> s, name |-> n, slot |-> "var", kind |-> "Reg", obj |-> obj] >>
  ELSE SelectSeq(tab, LAMBDA d : ~(d.scope = s /\ d.name = n /\ d.kind = k))
       \o << [scope |-> s, name |-> n, slot |-> SlotOf(k), kind |-> k, obj |-> obj] >>
(* what must never happen                                                       *)
Unique(tab) == \A i, j \in 1..Len(tab) :
   (i < j /\ tab[i].scope = tab[j].scope /\ tab[i].name = tab[j].name)
     => {tab[i].slot, tab[j].slot} = {"port", "var"}
NoShadow(tab, par) == \A i, j \in 1..Len(tab) :
   (i < j /\ tab[i].name = tab[j].name /\ tab[i].scope # tab[j].scope) => par[tab[j].scope] # tab[i].scope
=============================================================================
