------------------------------ MODULE NamesMC ------------------------------
(* All histories of definitions, copies and automatic names over a few names in  *)
(* a module and two generate scopes; automatic names come from a counter per      *)
(* scope that skips visible names.                                               *)
EXTENDS Names, TLC
CONSTANTS UserNames, Kinds, MaxDefs
VARIABLES tab, cnt, used
vars == <<tab, cnt, used>>
Par == <<0, 1, 1>>
Auto(i) == <<"t0", "t1", "t2", "t3", "t4", "t5">>[i + 1]
Init == tab = <<>> /\ cnt = <<0, 0, 0>> /\ used = 0
KindOk(s, k) == s = 1 \/ k \notin (PortKinds \cup {"OutputReg", "Parameter"})
Define == \E s \in 1..3, n \in UserNames, k \in Kinds, copy \in BOOLEAN :
   /\ KindOk(s, k) /\ used < MaxDefs
   /\ Verdict(tab, Par, s, n, k, copy) # "no"
   /\ tab' = Put(tab, s, n, k, used + 1) /\ used' = used + 1 /\ UNCHANGED cnt
   /\ Assert(Find(tab', Par, s, n) # 0, "defined name is found")
RECURSIVE NextFree(_, _)
NextFree(s, i) == IF Visible(tab, Par, s, Auto(i)) THEN NextFree(s, i + 1) ELSE i
Temp == \E s \in 1..3 : used < MaxDefs /\ \E i \in {NextFree(s, cnt[s])} :
   /\ Assert(Verdict(tab, Par, s, Auto(i), "Reg", FALSE) = "yes", "automatic name is free")
   /\ tab' = Put(tab, s, Auto(i), "Reg", used + 1) /\ cnt' = [cnt EXCEPT ![s] = i + 1] /\ used' = used + 1
Next == Define \/ Temp
Spec == Init /\ [][Next]_vars
Inv == Unique(tab) /\ NoShadow(tab, Par)
Stable == \A i \in 1..Len(tab) : tab[i].slot = "port" \/ (\E j \in Own(tab, tab[i].scope, tab[i].name) : tab[j].slot = "port")
           \/ Find(tab, Par, tab[i].scope, tab[i].name) = tab[i].obj
=============================================================================
