--------------------------------- MODULE MC_Num ---------------------------------
(* Every pair of numbers built from a few mantissas and every unit.             *)
EXTENDS Small

Mant == {"0", "1", "-1", "0.5", "1000", "1024", "2.25"}
Suffixes == {"", "%", "m", "K", "M", "G", "T", "P", "E", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei", "e3", "e6", "e9", "e12", "e15", "e18"}
Near == {"5k", "1KK", "1Kim", "1e2", "K", "1 K", "1ki", "1i", "--1", "1.2.3", "e3", "1mm", "1%m", "m", "-", ".", "1e", "abc"}
Left == Listed({a \o u : a \in IF Deep2 THEN Mant ELSE {"0", "1", "-1", "1024", "1000"}, u \in Suffixes} \cup Near)
Ops == {"EQ", "NEQ", "GT", "GE", "LT", "LE"}
Rights == {a \o u : a \in {"1", "1024"}, u \in Suffixes} \cup {"-1", "-1K", "-1m"} \cup (IF Deep2 THEN {a \o u : a \in Mant, u \in Suffixes} ELSE {"0", "0.5", "1000", "2.25K"})
Cases == [m : Ops, v : Rights]
El(i) == Obj(<<Pair("k", Str(NatText(i))), Pair("v", Str(Left[i]))>>)
TheDoc == Obj(<<Pair("l", Arr(Seq1(Len(Left), El)))>>)
Q(y) == WQuantR("ANY", "jsonpath:$.l", C3("jsonpath:$RELATIVE.v", y.m, y.v), "k", "jsonpath:$RELATIVE.k")
Law(y) == y.m # "EQ" \/
    \A i \in 1..Len(Left) :
        LET s == Left[i] IN
        IF ~IsNumber(s) THEN NumberMethod(y.m, "1", y.v) \in BOOLEAN /\ s \in Range(Left)
        ELSE LET c == Cmp(Number(s), Number(y.v))
                 d == Cmp(Number(y.v), Number(s))
                 h(m) == NumberMethod(m, s, y.v)
             IN /\ (c = 0) = (d = 0)
                /\ (h("LT") /\ ~h("EQ") /\ ~h("GT")) \/ (~h("LT") /\ h("EQ") /\ ~h("GT")) \/ (~h("LT") /\ ~h("EQ") /\ h("GT"))
                /\ h("LE") = ~h("GT") /\ h("GE") = ~h("LT") /\ h("NEQ") = ~h("EQ")
                /\ h("LT") = NumberMethod("GT", y.v, s)
Title(y) == "number " \o y.m \o " " \o y.v
History(y) == <<Load("r", WithCond(Q(y))), PutMsg("m", WithDoc(TheDoc), "raw"), PutMsg("p", WithDoc(TheDoc), "parsed"), Test("r", "m"), Test("r", "p")>>

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
