----------------------------- MODULE NamesTrace -----------------------------
(* Events: <<"def", scope, name, kind, copy, accepted, obj, unchanged>>            *)
(*         <<"tmp", scope, name, kind, accepted, obj>>                             *)
(*         <<"scope", parent>>            a new (unnamed or just defined) scope     *)
(*         <<"find", scope, name, obj>>   <<"slot", scope, name, slot, obj>>         *)
(*         <<"compile", ok>>                                                       *)
EXTENDS Names, TLC, Json, IOUtils
Traces == TLCEval(JsonDeserialize(IOEnv.TRACE))
VARIABLES tid, l, tab, par, v
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ tab = <<>> /\ par = <<0>> /\ v = "run"
SlotObj(s, n, sl) == LET o == {i \in Own(tab, s, n) : tab[i].slot = sl}
                     IN IF o = {} THEN 0 ELSE tab[CHOOSE i \in o : TRUE].obj
Clause(e) ==
  CASE e[1] = "def" ->
         LET d == Verdict(tab, par, e[2], e[3], IF e[4] = "OutputReg" THEN "Output" ELSE e[4], e[5] = 1)
             \* OutputReg defines both slots: only a free name will do
             w == IF e[4] = "OutputReg" /\ Visible(tab, par, e[2], e[3]) THEN "no" ELSE d
         IN IF w = "yes" /\ e[6] = 0 THEN "rejected-free-name"
            ELSE IF w = "no" /\ e[6] = 1 THEN "accepted-used-name"
            ELSE IF e[6] = 0 /\ e[8] = 0 THEN "rejected-but-changed"
            ELSE ""
    [] e[1] = "tmp" -> IF e[5] = 0 THEN "temporary-rejected"
                       ELSE IF Visible(tab, par, e[2], e[3]) THEN "temporary-collides" ELSE ""
    [] e[1] = "find" -> IF Find(tab, par, e[2], e[3]) # e[4] THEN "find" ELSE ""
    [] e[1] = "slot" -> IF SlotObj(e[2], e[3], e[4]) # e[5] THEN "table" ELSE ""
    [] e[1] = "compile" -> IF e[2] = 0 THEN "emitted-text" ELSE ""
    [] OTHER -> ""
TNext ==
  LET t == Traces[tid] IN
  /\ v = "run" /\ UNCHANGED tid
  /\ IF l > Len(t)
     THEN v' = "ok" /\ UNCHANGED <<l, tab, par>> /\ PrintT(<<"VERDICT", tid, "ok", l, "">>)
     ELSE \E e \in {t[l]} : \E c \in {Clause(e)} :
          IF c # ""
          THEN v' = "bad" /\ UNCHANGED <<l, tab, par>> /\ PrintT(<<"VERDICT", tid, "bad", l, c, e>>)
          ELSE /\ l' = l + 1 /\ v' = v
               /\ par' = (IF e[1] = "scope" THEN Append(par, e[2]) ELSE par)
               /\ tab' = (IF e[1] = "def" /\ e[6] = 1 THEN Put(tab, e[2], e[3], e[4], e[7])
                          ELSE IF e[1] = "tmp" THEN Put(tab, e[2], e[3], e[4], e[6]) ELSE tab)
=============================================================================
