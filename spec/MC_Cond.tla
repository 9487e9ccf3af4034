--------------------------------- MODULE MC_Cond --------------------------------
(* Every comparison, membership and presence method on every kind of document value *)
(* against every kind of rule value; one message holds all values, a quantifier *)
(* reports which of them satisfy the condition.                                 *)
EXTENDS Small

Vals == <<Absent, Str(""), Arr(<<>>), Numb("5"), Str("5"), Numb("7"), Str("5.0"), Str("abc"), Str("ab"), Str("Abc"), Bool(TRUE), Str("true"),
          Numb("1024"), Str("1Ki"), Str("1K"), Numb("-3"), Numb("0"), Str("0"), Numb("0.5"), Str("50%"), Str("500m"), Numb("100"),
          Str("a,b"), Str("5 "), Str("x5"), Str("5x"), Null, Str("null"), Str("a\\b"), Str("a\"b"), Str("<b>&")>>
RuleVals == {"5", "5.0", "abc", "ab", "", "true", "false", "1024", "1Ki", "1K", "-3", "0", "0.5", "50%", "500m", "100",
             "abc,5", "[ab,true]", "a,b", "x", "5,1Ki", "Abc", "null", "a\\b", "a\"b", "<b>&", "a.b"}
OkFor(m, v) == CondOk("jsonpath:$.a", m, v)
Cases == {y \in [m : Methods, v : RuleVals] : OkFor(y.m, y.v) /\ (Deep2 \/ y.m = Upper(y.m))}
One1(k) == IF IsThere(Vals[k]) THEN Obj(<<Pair("k", Str(NatText(k))), Pair("v", Vals[k])>>) ELSE Obj(<<Pair("k", Str(NatText(k)))>>)
TheDoc == Obj(<<Pair("l", Arr(Seq1(Len(Vals), One1)))>>)
Ask(m, v) == WQuantR("ANY", "jsonpath:$.l", C3("jsonpath:$RELATIVE.v", m, v), "k", "jsonpath:$RELATIVE.k")
F(m, v, x) == DocCondition("jsonpath:$.v", m, v, Obj(IF IsThere(x) THEN <<Pair("v", x)>> ELSE <<Pair("z", Str("z"))>>), Absent)
Empty1(x) == ~IsThere(x) \/ x.t = "u" \/ (x.t = "s" /\ x.v = "") \/ (x.t = "a" /\ x.v = <<>>)
Neg(u) == CASE u = "EQ" -> "NEQ" [] u = "IN" -> "NIN" [] u = "RE" -> "NRE" [] u = "EX" -> "NEX" [] u = "IS" -> "NIN"
            [] u = "LT" -> "GE" [] u = "GT" -> "LE" [] OTHER -> ""
Law(y) == LET u == Upper(y.m) IN
    \A k \in 1..Len(Vals) :
        LET x == Vals[k]
            f == F(y.m, y.v, x)
        IN /\ Empty1(x) => (f <=> u = "NEX")
           /\ ~Empty1(x) /\ u \in {"EQ", "IN", "RE", "EX", "IS"} => (f <=> ~F(Neg(u), y.v, x))
           /\ u \in {"LT", "GT"} /\ IsNumber(ValueText(x)) => (f <=> ~F(Neg(u), y.v, x))
           /\ u \in OrderMethods /\ ~IsNumber(ValueText(x)) => ~f
           /\ u = "LE" => (f <=> F("LT", y.v, x) \/ F("EQ", y.v, x))
           /\ u = "GE" => (f <=> F("GT", y.v, x) \/ F("EQ", y.v, x))
           /\ f = F(u, y.v, x)
Title(y) == "condition " \o y.m \o " " \o y.v
History(y) ==
    <<Load("r", WithCond(Ask(y.m, y.v))), PutMsg("m", WithDoc(TheDoc), "raw"), PutMsg("p", WithDoc(TheDoc), "parsed"), PutMsg("n", Msg0, "raw"),
      Load("s", WithCond(C3("jsonpath:$.l[3].v", y.m, y.v))), Load("t", WithCond(C3("jsonpath:$.l[9].w", y.m, y.v))),
      Test("r", "m"), Test("r", "p"), Test("r", "n"), Test("s", "m"), Test("s", "p"), Test("t", "m"), Test("t", "p"), Test("s", "n")>>

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
