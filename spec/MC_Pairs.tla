-------------------------------- MODULE MC_Pairs --------------------------------
(* Quantifiers over the fields of an object: every object of up to two (three)  *)
(* fields whose values are plain, objects or lists, with conditions on the name *)
(* of the field, on its value and on a field of its value; also one level down, *)
(* where the object is an element of a list or the value of a field.            *)
EXTENDS Small

Vals == <<Numb("1"), Str("{x"), Str("x,y"), Obj(<<>>), Obj(<<Pair("v", Numb("1"))>>), Obj(<<Pair("v", Numb("2")), Pair("w", Str("}"))>>), Null, Str("<a\\&>")>>
        \o (IF Deep2 THEN <<Numb("2"), Obj(<<Pair("v", Obj(<<Pair("k", Numb("1"))>>))>>)>> ELSE <<>>)
Names == <<"k", "v", "z">>
Cases == SeqsUpTo(1..Len(Vals), IF Deep2 THEN 3 ELSE 2)
Fields(c) == TLCEval([i \in 1..Len(c) |-> Pair(Names[i], Vals[c[i]])])
(* the object itself, as the only element of a list, and as the value of a field *)
TheDoc(f) == Obj(<<Pair("l", Arr(<<Obj(f)>>)), Pair("o", Obj(f)), Pair("p", Obj(<<Pair("q", Obj(f))>>))>>)
KeyIs(k) == C3("jsonpath:$KEY", "EQ", k)
ValIs(v) == C3("jsonpath:$VALUE", "EQ", v)
SubIs(v) == C3("jsonpath:$VALUE.v", "EQ", v)
Bodies == <<KeyIs("k"), WNot(KeyIs("v")), C3("jsonpath:$KEY", "RE", "^[kv]$"), ValIs("1"), ValIs("{x"), ValIs("x,y"), ValIs("<a\\&>"), C3("jsonpath:$VALUE", "NEX", ""), C3("jsonpath:$VALUE", "GE", "1"),
            SubIs("1"), WNot(SubIs("1")), C3("jsonpath:$VALUE.v", "EX", ""), C3("jsonpath:$VALUE.v", "NEX", ""), C3("jsonpath:$VALUE.w", "EQ", "}"),
            C3("jsonpath:$VALUE.v.k", "EQ", "1"), WAnd(<<KeyIs("k"), SubIs("1")>>), WOr(<<KeyIs("v"), SubIs("2")>>)>>
Holds1(w, f) == Tests(w, WithDoc(TheDoc(f))).f
Q(k, w) == WQuant(k, "jsonpath:$.o", w)
InList1(k, w) == WQuant("ANY", "jsonpath:$.l", WQuant(k, "jsonpath:$RELATIVE*", w))
InField(k, w) == WQuant(k, "jsonpath:$.p.q", w)
Law(c) ==
    LET f == Fields(c) IN
    \A j \in 1..Len(Bodies) :
        LET w == Bodies[j] IN
        /\ Holds1(Q("ALL", w), f) = ~Holds1(Q("ANY", WNot(w)), f)
        /\ Holds1(Q("ANY", w), f) <=> \E i \in 1..Len(f) : Holds1(Q("ANY", w), <<f[i]>>)
        /\ Holds1(Q("ANY", w), f) = Holds1(InList1("ANY", w), f)     \* the object may be reached any way
        /\ Holds1(Q("ALL", w), f) = Holds1(InList1("ALL", w), f)
        /\ Holds1(Q("ALL", w), f) = Holds1(InField("ALL", w), f)
        /\ Holds1(Q("ANY", KeyIs("k")), f) <=> \E i \in 1..Len(f) : f[i].k = "k"
        /\ ~Holds1(WAnd(<<w>>), f) \/ w.v[1].k = "NOT"               \* no field outside a quantifier
Title(c) == "fields " \o Json(Obj(Fields(c)))
RName(k, j) == k \o NatText(j)
History(c) ==
    LET f == Fields(c) IN
    <<PutMsg("m", WithDoc(TheDoc(f)), "raw"), PutMsg("p", WithDoc(TheDoc(f)), "parsed")>>
    \o Flat1(Len(Bodies), LAMBDA j :
         <<Load(RName("e", j), WithCond(Q("ANY", Bodies[j]))), Load(RName("a", j), WithCond(Q("ALL", Bodies[j]))),
           Load(RName("l", j), WithCond(InList1(IF j % 2 = 0 THEN "ANY" ELSE "ALL", Bodies[j]))),
           Load(RName("f", j), WithCond(InField(IF j % 2 = 0 THEN "ALL" ELSE "ANY", Bodies[j]))),
           Test(RName("e", j), "m"), Test(RName("e", j), "p"), Test(RName("a", j), "m"), Test(RName("a", j), "p"),
           Test(RName("l", j), "m"), Test(RName("l", j), "p"), Test(RName("f", j), "m"), Test(RName("f", j), "p")>>)

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
