-------------------------------- MODULE MC_Quant --------------------------------
(* ANY and ALL over every list of up to two (three) elements, the element being *)
(* plain, nested or empty, with conditions before and after inner quantifiers.  *)
EXTENDS Small

Inner == {Obj(<<>>), Obj(<<Pair("v", Numb("1"))>>), Obj(<<Pair("v", Numb("2"))>>)}
Lists == {<<i>> : i \in Inner} \cup {<<>>} \cup {<<Obj(<<Pair("v", Numb("1"))>>), i>> : i \in Inner} \cup {<<Obj(<<Pair("v", Numb("2"))>>), Obj(<<Pair("v", Numb("1"))>>)>>}
Plain == {Obj(<<>>), Obj(<<Pair("a", Numb("1"))>>), Obj(<<Pair("a", Numb("2"))>>)}
Nested == {Obj(<<Pair("a", Numb(n)), Pair("i", Arr(l))>>) : n \in {"1", "2"}, l \in Lists}
Els == Plain \cup Nested
Firsts == IF Deep2 THEN Els ELSE {e \in Els : Len(e.v) < 2} \cup {e \in Nested : Len(e.v[2].v.v) < 2}
Docs == {<<>>} \cup {<<e>> : e \in Els} \cup {<<e, f>> : e \in Firsts, f \in Firsts}
TheDoc(l) == Obj(<<Pair("l", Arr(l)), Pair("z", Numb("1"))>>)
Cases == Docs
A1 == C3("jsonpath:$RELATIVE.a", "EQ", "1")
V1 == C3("jsonpath:$RELATIVE.v", "EQ", "1")
In(k, w) == WQuant(k, "jsonpath:$RELATIVE.i[:]", w)
InR(k, w) == WQuant(k, "jsonpath:$RELATIVE.i", w)
Bodies == <<A1, WNot(A1), In("ANY", V1), In("ALL", V1), WNot(InR("ANY", V1)), InR("ALL", WNot(V1)),
            WAnd(<<In("ANY", V1), A1>>), WAnd(<<A1, In("ALL", V1)>>), WOr(<<In("ALL", V1), A1>>), WOr(<<A1, InR("ANY", WNot(V1))>>),
            WAnd(<<C3("jsonpath:$.z", "EQ", "1"), A1>>), WAnd(<<In("ANY", V1), In("ANY", WNot(V1)), A1>>),
            C3("jsonpath:$RELATIVE.a", "EX", ""), C3("jsonpath:$RELATIVE.i", "NEX", "")>>
Par == "jsonpath:$.l"
Any1(w) == WQuant("ANY", Par, w)
All1(w) == WQuant("ALL", Par \o "[:]", w)
Holds1(w, l) == Tests(w, WithDoc(TheDoc(l))).f
Law(l) ==
    \A j \in 1..Len(Bodies) :
        LET w == Bodies[j] IN
        /\ Holds1(All1(w), l) = ~Holds1(Any1(WNot(w)), l)          \* duality
        /\ Holds1(Any1(w), l) <=> \E i \in 1..Len(l) : Holds1(Any1(w), <<l[i]>>)
        /\ Holds1(All1(w), l) <=> \A i \in 1..Len(l) : Holds1(All1(w), <<l[i]>>)
        /\ l # <<>> /\ Holds1(All1(w), l) => Holds1(Any1(w), l)
        /\ ~Tests(Any1(w), Msg0).f /\ ~Tests(All1(w), Msg0).f      \* no document
        /\ LET r == WQuantR("ANY", Par, w, "x", "jsonpath:$RELATIVE.a")
           IN Len(Tests(r, WithDoc(TheDoc(l))).x) = Cardinality({i \in 1..Len(l) : Holds1(Any1(w), <<l[i]>>)})
Title(l) == "quantifier " \o Json(Arr(l))
RName(k, j) == k \o NatText(j)
History(l) ==
    <<PutMsg("m", WithDoc(TheDoc(l)), "raw"), PutMsg("p", WithDoc(TheDoc(l)), "parsed")>>
    \o Flat1(Len(Bodies), LAMBDA j :
         <<Load(RName("e", j), WithCond(WQuantR("ANY", Par, Bodies[j], "x", "jsonpath:$RELATIVE.a"))),
           Load(RName("a", j), WithCond(All1(Bodies[j]))),
           Test(RName("e", j), "m"), Test(RName("e", j), "p"), Test(RName("a", j), "m"), Test(RName("a", j), "p"),
           One(RName("e", j), "m")>>)

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
