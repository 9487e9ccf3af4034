--------------------------------- MODULE MC_Ret ---------------------------------
(* Returned values of every tree of depth two over conditions with and without  *)
(* return paths, quantifiers with return paths, true and false.                 *)
EXTENDS Small

Doc0 == Obj(<<Pair("a", Numb("1")), Pair("b", Str("x")), Pair("e", Str("say \"<x>\" \\")),
              Pair("l", Arr(<<Obj(<<Pair("v", Numb("1")), Pair("w", Str("p"))>>), Obj(<<Pair("v", Numb("2"))>>), Obj(<<Pair("v", Numb("1")), Pair("w", Str("q"))>>)>>)), Pair("n", Null)>>)
Q1 == WQuantR("ANY", "jsonpath:$.l", C3("jsonpath:$RELATIVE.v", "EQ", "1"), "w", "jsonpath:$RELATIVE.w")
Leaves == {True3, False3,
           CR("jsonpath:$.a", "EQ", "1", "a", "jsonpath:$.a"), CR("jsonpath:$.a", "EQ", "2", "no", "jsonpath:$.a"),
           CR("jsonpath:$.b", "EX", "", "b", "jsonpath:$.b"), CR("jsonpath:$.b", "EX", "", "z", "jsonpath:$.zz"),
           CR("jsonpath:$.n", "NEX", "", "n", "jsonpath:$.n"), CR("jsonpath:$.e", "EQ", "say \"<x>\" \\", "e", "jsonpath:$.e"),
           Q1, WQuantR("ANY", "jsonpath:$.l[:]", C3("jsonpath:$RELATIVE.v", "GT", "1"), "v", "jsonpath:$RELATIVE.v"),
           WQuantR("ANY", "jsonpath:$.l", C3("jsonpath:$RELATIVE.v", "GT", "7"), "v", "jsonpath:$RELATIVE.v"),
           WQuantR("ALL", "jsonpath:$.l", C3("jsonpath:$RELATIVE.v", "GE", "1"), "v", "jsonpath:$RELATIVE.v"),
           WQuant("ANY", "jsonpath:$.l", CR("jsonpath:$RELATIVE.v", "EQ", "1", "v", "jsonpath:$RELATIVE.v"))}
Pairs2 == {<<l, k>> : l \in Leaves, k \in Leaves}
Level1 == {WAnd(p) : p \in Pairs2} \cup {WOr(p) : p \in Pairs2} \cup {WNot(l) : l \in Leaves}
Few == {True3, Q1, CR("jsonpath:$.b", "EX", "", "b", "jsonpath:$.b"), CR("jsonpath:$.a", "EQ", "2", "no", "jsonpath:$.a")}
Level2 == {WAnd(<<l, k>>) : l \in IF Deep2 THEN Level1 ELSE {WOr(<<a, b>>) : a \in Few, b \in Few}, k \in Few}
          \cup {WOr(<<k, l>>) : l \in IF Deep2 THEN Level1 ELSE {WAnd(<<a, b>>) : a \in Few, b \in Few}, k \in Few}
          \cup {WNot(WAnd(<<l, k>>)) : l \in Few, k \in Few}
          \cup {WAnd(<<a, b, c>>) : a \in Few, b \in Few, c \in Few} \cup {WOr(<<a, b, c>>) : a \in Few, b \in Few, c \in Few}
Cases == Leaves \cup Level1 \cup Level2
M0 == WithDoc(Doc0)
Law(w) == LET r == Tests(w, M0)
              kids == IF w.v[1].k \in {"AND", "OR"} THEN w.v[1].v.v ELSE <<>>
              rs == Seq1(Len(kids), LAMBDA i : Tests(kids[i], M0))
          IN /\ ~r.f => r.x = <<>>                                   \* nothing from what does not hold
             /\ w.v[1].k = "NOT" => r.x = <<>>
             /\ w.v[1].k = "OR" => Len(r.x) = LET RECURSIVE Sum(_) Sum(i) == IF i > Len(rs) THEN 0 ELSE Len(rs[i].x) + Sum(i + 1) IN Sum(1)
             /\ w.v[1].k = "AND" /\ r.f => r.x \in {rs[i].x : i \in 1..Len(rs)}
             /\ ~\E i \in 1..Len(r.x) : Contains(r.x[i], "no:")
Title(w) == "returned " \o Json(w)
History(w) == <<Load("r", WithCond(w)), PutMsg("m", M0, "raw"), PutMsg("p", M0, "parsed"), Test("r", "m"), Test("r", "p"), One("r", "m"), Check(<<"r">>, "p")>>

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
