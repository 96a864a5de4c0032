------------------------------ MODULE ThreadGen ------------------------------
(* Control skeletons: two nested loops whose bodies are made of conditional and
   unconditional break / continue / return / branches, with else parts.  Build
   turns a skeleton vector into a program.
   vector = <<outer kind, x, inner kind, a, b, y, outer else, inner else, callee>>  *)
EXTENDS ThreadSem
I(n) == <<"i", n>>
V(x) == <<"v", x>>
Pr(k) == <<"pr", <<I(k), V("i"), V("j")>>>>
Eq(x, n) == <<"cmp", <<"==">>, <<V(x), I(n)>>>>
Ret == <<"ret", <<<<"b", "+", V("i"), I(100)>>>>>>
\* item k of a body of the loop over x, labelled l
Item(k, x, l) ==
  CASE k = 0 -> <<Pr(l)>>
    [] k = 1 -> <<<<"if", Eq(x, 1), <<<<"brk">>>>, <<>>>>>>
    [] k = 2 -> <<<<"if", Eq(x, 1), <<Pr(l), <<"cnt">>>>, <<>>>>>>
    [] k = 3 -> <<<<"if", Eq(x, 2), <<Ret>>, <<>>>>>>
    [] k = 4 -> <<<<"if", Eq(x, 0), <<Pr(l)>>, <<Pr(l + 1), <<"brk">>>>>>>>
    [] k = 5 -> <<<<"if", Eq(x, 1), <<<<"cnt">>>>, <<<<"if", Eq(x, 2), <<<<"brk">>>>, <<Pr(l)>>>>>>>>>>
    [] k = 6 -> <<<<"if", Eq(x, 0), <<<<"if", Eq("i", 1), <<<<"brk">>>>, <<<<"cnt">>>>>>>>, <<>>>>, Pr(l)>>
    [] k = 7 -> <<<<"if", <<"cmp", <<">", "<">>, <<V(x), I(0), I(5)>>>>, <<Pr(l)>>, <<<<"cnt">>>>>>, Pr(l + 1)>>
    [] k = 8 -> <<Pr(l), <<"if", Eq("i", 2), <<<<"brk">>>>, <<>>>>>>
Loop(k, x, body, els) ==
  CASE k = 0 -> <<<<"for", x, I(0), I(3), I(1), body, els>>>>
    [] k = 1 -> <<<<"=", <<x>>, I(-1)>>, <<"wh", <<"cmp", <<"<">>, <<V(x), I(3)>>>>,
                    <<<<"a=", x, "+", I(1)>>>> \o body, els>>>>
    [] k = 2 -> <<<<"for", x, I(2), I(-1), I(-1), body, els>>>>
    [] k = 3 -> <<<<"forl", x, <<I(1), I(0), I(2)>>, body, els>>>>
\* the value of a loop variable after its loop is not fixed by the property: overwrite it
Else(b, l, x) == IF b = 1 THEN <<<<"=", <<x>>, I(9)>>, Pr(l)>> ELSE <<>>
Build(v) ==
  LET inner == IF v[3] = 4 THEN <<>> ELSE Loop(v[3], "j", Item(v[4], "j", 30) \o Item(v[5], "j", 40), Else(v[8], 60, "j"))
                                   \o <<<<"=", <<"j">>, I(7)>>>>
      body  == Item(v[2], "i", 10) \o inner \o Item(v[6], "i", 20)
      prog  == <<<<"t=", <<"i", "j">>, <<I(0), I(0)>>>>>> \o Loop(v[1], "i", body, Else(v[7], 70, "i"))
               \o <<<<"pr", <<I(80)>>>>, <<"ret", <<V("x")>>>>>>
  IN IF v[9] = 0
     THEN [main |-> [ps |-> <<>>, ds |-> <<>>, body |-> <<<<"=", <<"x">>, I(5)>>>> \o prog]]
     ELSE [f |-> [ps |-> <<"x">>, ds |-> <<>>, body |-> prog],
           main |-> [ps |-> <<>>, ds |-> <<>>,
                     body |-> <<<<"for", "k", I(0), I(2), I(1),
                       <<<<"=", <<"r">>, <<"call", "f", <<V("k")>>, <<>>>>>>, <<"pr", <<I(90), V("r")>>>>>>, <<>>>>>>]]
=============================================================================
