--------------------------------- MODULE MC_Tree --------------------------------
(* Every tree of AND, OR and NOT up to depth two over true, false, a true and a *)
(* false comparison and one on a missing value; wider ones in the large scope.  *)
EXTENDS Small

Doc0 == Obj(<<Pair("a", Numb("5"))>>)
Leaves == {True3, False3, CR("jsonpath:$.a", "EQ", "5", "v", "jsonpath:$.a"), C3("jsonpath:$.b", "NEQ", "5")}
Level1 == Leaves \cup {WNot(l) : l \in Leaves} \cup {WAnd(<<l>>) : l \in Leaves} \cup {WOr(<<l>>) : l \in Leaves}
          \cup {WAnd(<<l, k>>) : l \in Leaves, k \in Leaves} \cup {WOr(<<l, k>>) : l \in Leaves, k \in Leaves}
Small1 == Leaves \cup {WNot(True3), WNot(False3)}
          \cup {WAnd(<<l, k>>) : l \in {True3, False3}, k \in {True3, False3}}
          \cup {WOr(<<l, k>>) : l \in {True3, False3}, k \in {True3, False3}}
Mid == IF Deep2 THEN Level1 ELSE Small1
Kids == {<<l>> : l \in Level1} \cup {<<l, k>> : l \in Mid, k \in Mid}
        \cup {<<l, k, j>> : l \in Leaves, k \in IF Deep2 THEN Small1 ELSE Leaves, j \in Leaves}
Cases == [k : {"AND", "OR", "NAND", "NOR"}, c : Kids]
Tree1(y) == CASE y.k = "AND" -> WAnd(y.c) [] y.k = "OR" -> WOr(y.c)
              [] y.k = "NAND" -> WNot(WAnd(y.c)) [] OTHER -> WNot(WOr(y.c))
M0 == WithDoc(Doc0)
Value(w) == Tests(w, M0).f
Nots(c) == Seq1(Len(c), LAMBDA i : WNot(c[i]))
Turned(c) == Seq1(Len(c), LAMBDA i : c[Len(c) + 1 - i])
Alone(w) ==                          \* what a tree returns plays no part in its outcome
    LET hd == Give(Handle(AsRule(WithCond(w))), EmptySet) IN Value(w) <=> Fulfils(hd.p.t, M0, Absent)
Law(y) ==
    LET v == Seq1(Len(y.c), LAMBDA i : Value(y.c[i]))
    IN Alone(Tree1(y)) /\
       CASE y.k = "AND" -> /\ Value(Tree1(y)) <=> \A i \in 1..Len(v) : v[i]
                           /\ Value(Tree1(y)) = Value(WAnd(Turned(y.c)))
         [] y.k = "OR" -> /\ Value(Tree1(y)) <=> \E i \in 1..Len(v) : v[i]
                          /\ Value(Tree1(y)) = Value(WOr(Turned(y.c)))
         [] y.k = "NAND" -> Value(Tree1(y)) = Value(WOr(Nots(y.c)))        \* De Morgan
         [] OTHER -> Value(Tree1(y)) = Value(WAnd(Nots(y.c)))
Title(y) == "tree " \o Json(Tree1(y))
History(y) == <<Load("r", WithCond(Tree1(y))), PutMsg("m", M0, "raw"), PutMsg("p", M0, "parsed"), PutMsg("n", Msg0, "raw"),
                TestF("r", "m"), TestF("r", "p"), OneF("r", "m"), TestF("r", "n"), TestF("r", "m")>>

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
