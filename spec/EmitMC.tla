------------------------------- MODULE EmitMC -------------------------------
(* An implementation with global and per-module counters and deferred hooks.      *)
(* Emission resolves the hooks on a copy (CopyOnEmit); with the hooks resolved in  *)
(* place, or numbering their objects globally, the contract is violated.           *)
EXTENDS Emit, TLC
CONSTANTS MaxActs, CopyOnEmit, GlobalHook, Numbered
VARIABLES s, memo, gc, mods, n, ok
vars == <<s, memo, gc, mods, n, ok>>
Init == s = Fresh /\ memo = {} /\ gc = 0 /\ mods = <<>> /\ n = 0 /\ ok = TRUE
BuildA(d) ==
  /\ n < MaxActs /\ n' = n + 1
  /\ s' = Build(s, d, d = 2 /\ Numbered)
  /\ mods' = Append(mods, [items |-> <<gc>>, hooks |-> <<d>>, tmp |-> 0, num |-> d = 2 /\ Numbered, given |-> <<>>])
  /\ gc' = gc + d
  /\ UNCHANGED <<memo, ok>>
ExtendA(h, g) ==
  /\ n < MaxActs /\ n' = n + 1 /\ s.key[h].epoch
  /\ s' = Extend(s, h, g)
  /\ mods' = [mods EXCEPT ![h].items = Append(@, 10 + mods[h].tmp), ![h].tmp = @ + 1, ![h].hooks = Append(@, g)]
  /\ gc' = gc + 1
  /\ UNCHANGED <<memo, ok>>
EmitA(h) ==
  LET m == mods[h]
      more == IF m.num /\ Len(m.given) < Len(m.hooks) THEN Len(m.hooks) - Len(m.given) ELSE 0
      g == m.given \o [i \in 1..more |-> gc + i]
      r == [i \in 1..Len(m.hooks) |-> 20 + m.hooks[i] + (IF GlobalHook THEN gc ELSE IF m.num THEN g[i] ELSE m.tmp + i)]
      t == m.items \o r
      x == Emission(s, h)
  IN /\ n < MaxActs + 3 /\ n' = n + 1
     /\ ok' = Consistent(memo, Key(x, h), t)
     /\ memo' = memo \cup {<<Key(x, h), t>>}
     /\ s' = x
     /\ gc' = IF GlobalHook THEN gc + Len(m.hooks) ELSE gc + more
     /\ mods' = IF CopyOnEmit THEN [mods EXCEPT ![h].given = g] ELSE [mods EXCEPT ![h] = [num |-> m.num, given |-> g, items |-> t, hooks |-> <<>>, tmp |-> m.tmp + Len(m.hooks)]]
ResetA == n < MaxActs /\ n' = n + 1 /\ s' = Reset(s) /\ gc' = 0 /\ UNCHANGED <<memo, mods, ok>>
ProcA == n < MaxActs /\ n' = n + 1 /\ s' = Fresh /\ gc' = 0 /\ mods' = <<>> /\ UNCHANGED <<memo, ok>>
Next == \/ \E d \in 1..2 : BuildA(d)
        \/ \E h \in 1..Len(mods) : EmitA(h) \/ (\E g \in 1..2 : ExtendA(h, g))
        \/ ResetA \/ ProcA
Spec == Init /\ [][Next]_vars
Deterministic == ok
(* every emitted text belongs to one key only when it contains a key of its own    *)
OneText == \A a, b \in memo : a[1] = b[1] => a[2] = b[2]
=============================================================================
