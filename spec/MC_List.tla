--------------------------------- MODULE MC_List ---------------------------------
(* Quantifiers over a list of paths: every pair of paths that name a list or an  *)
(* object, in the document or in the enclosing element, or nothing. The elements *)
(* are those of the first path followed by those of the second.                  *)
EXTENDS Small

V(n) == Obj(<<Pair("v", Numb(n))>>)
Ls == IF Deep2 THEN <<<<>>, <<V("1")>>, <<V("2")>>, <<V("2"), V("1")>>>> ELSE <<<<>>, <<V("1")>>, <<V("2"), V("1")>>>>
Os == IF Deep2 THEN <<Obj(<<>>), V("1"), V("2"), Obj(<<Pair("w", Numb("1"))>>)>> ELSE <<Obj(<<>>), V("1"), Obj(<<Pair("v", Numb("2")), Pair("w", Numb("1"))>>)>>
Cases == (1..Len(Ls)) \X (1..Len(Os)) \X (1..Len(Ls)) \X (1..Len(Os))
(* c: list and object of the document, list and object of the element e *)
Inside(c) == Obj(<<Pair("l", Arr(Ls[c[3]])), Pair("o", Os[c[4]]), Pair("v", Numb("2"))>>)
TheDoc(c) == Obj(<<Pair("e", Arr(<<Inside(c)>>)), Pair("l", Arr(Ls[c[1]])), Pair("o", Os[c[2]]), Pair("p", Arr(<<Numb("1")>>))>>)
Abs == <<"$.l[:]", "$.o", "$.p[*]", "$.nope[:]">>
Rel == <<"$RELATIVE.l", "$RELATIVE.o", "$RELATIVE.nope[:]">>
Paths == Abs \o Rel
Pairs == IF Deep2 THEN (1..Len(Paths)) \X (1..Len(Paths)) ELSE {q \in (1..Len(Paths)) \X (1..Len(Paths)) : q[1] # q[2]}
PairSeq == TLCEval(LET n == Len(Paths) IN Filter([i \in 1..(n * n) |-> <<((i - 1) \div n) + 1, ((i - 1) % n) + 1>>], LAMBDA q : q \in Pairs))
TwoPaths(q) == "jsonpath:" \o Paths[q[1]] \o (IF q[1] % 2 = 0 THEN "," ELSE ",jsonpath:") \o Paths[q[2]]
Body == C3("jsonpath:$RELATIVE.v", "EQ", "1")
Low == C3("jsonpath:$RELATIVE.v", "LE", "2")
OnE(k, a, w) == WQuant("ANY", "jsonpath:$.e[:]", WQuant(k, a, w))
Top(k, a, w) == WQuantR(k, a, w, "r", "jsonpath:$RELATIVE.v")
IsTop(q) == q[1] <= Len(Abs) /\ q[2] <= Len(Abs)
Says(w, c) == Tests(w, WithDoc(TheDoc(c)))
One1(i) == "jsonpath:" \o Paths[i]
Law(c) ==
    \A q \in Pairs, w \in {Body, WNot(Body)} :
        /\ Says(OnE("ANY", TwoPaths(q), w), c).f = (Says(OnE("ANY", One1(q[1]), w), c).f \/ Says(OnE("ANY", One1(q[2]), w), c).f)
        /\ Says(OnE("ALL", TwoPaths(q), w), c).f = (Says(OnE("ALL", One1(q[1]), w), c).f /\ Says(OnE("ALL", One1(q[2]), w), c).f)
        /\ IsTop(q) => Says(Top("ANY", TwoPaths(q), w), c).x = Says(Top("ANY", One1(q[1]), w), c).x \o Says(Top("ANY", One1(q[2]), w), c).x
Title(c) == "paths " \o Json(TheDoc(c))
RName(k, j) == k \o NatText(j)
Both(r) == <<Test(r, "m"), Test(r, "p")>>
History(c) ==
    <<PutMsg("m", WithDoc(TheDoc(c)), "raw"), PutMsg("p", WithDoc(TheDoc(c)), "parsed")>>
    \o Flat1(Len(PairSeq), LAMBDA j :
         LET q == PairSeq[j] IN
         <<Load(RName("e", j), WithCond(OnE("ANY", TwoPaths(q), Body))), Load(RName("a", j), WithCond(OnE("ALL", TwoPaths(q), IF j % 3 = 0 THEN Low ELSE Body)))>>
         \o Both(RName("e", j)) \o Both(RName("a", j))
         \o (IF IsTop(q) THEN <<Load(RName("t", j), WithCond(Top("ANY", TwoPaths(q), Body)))>> \o Both(RName("t", j)) ELSE <<>>))

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
