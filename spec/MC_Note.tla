--------------------------------- MODULE MC_Note --------------------------------
(* One meaning, every notation: field names, parents, methods, single children, *)
(* conditions written in every documented way have to give the same answers.    *)
EXTENDS Small

Paths == <<"jsonpath:$.a", "jsonpath:.a", "jsonpath:$.'a'", "jsonpath:$.\"a\"", "jsonpath:$.[\"a\"]", "jsonpath:$.['a']">>
Deeper == <<"jsonpath:$.o.b", "jsonpath:.o.b", "jsonpath:$.o['b']", "jsonpath:$.o[\"b\"]", "jsonpath:$.o.\"b\"", "jsonpath:$.[\"o\"].b", "jsonpath:$.o.[\"b\"]">>
Odd == <<"jsonpath:$.[\"x-y\"]", "jsonpath:$.['x-y']", "jsonpath:.['x-y']", "jsonpath:.[\"x-y\"]">>
Slots == <<"jsonpath:$.l[0].v", "jsonpath:.l[0].v", "jsonpath:$.l[0]['v']", "jsonpath:$.[\"l\"][0].v">>
Parents == <<"jsonpath:$.l", "jsonpath:.l", "jsonpath:$.l[:]", "jsonpath:$.l[*]", "jsonpath:.l[:]", "jsonpath:.l[*]">>
Rels == <<"jsonpath:$RELATIVE.v", "jsonpath:$RELATIVE.['v']", "jsonpath:$RELATIVE.\"v\"", "jsonpath:$RELATIVE.[\"v\"]">>
Dirs == <<"direct", "condition", "list", "AND", "AND list", "OR", "condition list">>
As(d, w) == CASE d = "direct" -> w
              [] d = "condition" -> Obj(<<Pair("condition", w)>>)
              [] d = "list" -> Arr(<<w>>)
              [] d = "AND" -> Obj(<<Pair("AND", w)>>)
              [] d = "AND list" -> WAnd(<<w>>)
              [] d = "OR" -> Obj(<<Pair("OR", w)>>)
              [] OTHER -> Arr(<<Obj(<<Pair("condition", w)>>)>>)
MethodPairs == <<"EQ", "eq", "NEQ", "neq", "NE", "ne", "IN", "in", "EX", "ex", "RE", "re", "GE", "ge", "NIN", "nin", "LT", "lt", "NEX", "nex", "NRE", "nre">>
ValueOf(m) == IF Upper(m) \in {"RE", "NRE"} THEN "^1" ELSE "1"
PathSets == <<Paths, Deeper, Odd, Slots>>
(* a value written as a text or as a number, in YAML and in JSON *)
Written == <<"5", "0", "-3", "0.5", "12.25", "1024", "100000", "1000000", "1048576", "2500000.5", "4294967296", "123456789012", "0.0001", "0.00001", "-20000000">>
ValueAttrs == <<"jsonpath:$.n", "jsonpath:$.l[0]", "payloadSize", "utcHoursFromMidnight">>
ValueMethods == <<"EQ", "NEQ", "IN", "NIN", "GE", "LT", "RE">>
\* a case: the group of spellings, the method, and how the condition is placed
Cases == Flat1(Len(PathSets), LAMBDA g : Flat1(Len(MethodPairs), LAMBDA m : Seq1(Len(Dirs), LAMBDA d : <<"path", g, m, d>>)))
         \o Flat1(Len(Written), LAMBDA m : Flat1(Len(ValueAttrs), LAMBDA k : Seq1(IF k < 3 THEN 7 ELSE 1, LAMBDA d : <<"value", k, m, d>>)))
         \o Flat1(Len(MethodPairs), LAMBDA m : Flat1(2, LAMBDA k : Seq1(3, LAMBDA d : <<"quant", k, m, d>>)))
Doc1 == Obj(<<Pair("a", Numb("1")), Pair("l", Arr(<<Obj(<<Pair("v", Numb("1"))>>), Obj(<<Pair("v", Numb("2"))>>)>>)), Pair("o", Obj(<<Pair("b", Numb("1"))>>)), Pair("x-y", Numb("1"))>>)
Doc2 == Obj(<<Pair("a", Numb("2")), Pair("l", Arr(<<Obj(<<Pair("v", Numb("2"))>>)>>)), Pair("o", Obj(<<Pair("c", Numb("1"))>>))>>)
NumberCond(a, m, v) == Obj(<<Pair("attribute", Str(a)), Pair("method", Str(m)), Pair("value", Numb(v))>>)
Doc3(v) == Obj(<<Pair("l", Arr(<<Numb(v)>>)), Pair("n", Numb(v))>>)
M1(y) == IF y[1] = "value" THEN [WithDoc(Doc3(Written[y[3]])) EXCEPT !.size = "1000000", !.hours = "5"] ELSE WithDoc(Doc1)
M2(y) == IF y[1] = "value" THEN [WithDoc(Doc3(Written[(y[3] % Len(Written)) + 1])) EXCEPT !.size = "1024", !.hours = "0.5"] ELSE WithDoc(Doc2)
Spellings(y) ==
    IF y[1] = "value"
    THEN LET a == ValueAttrs[y[2]]
             m == ValueMethods[y[4]]
             v == Written[y[3]]
         IN <<C3(a, m, v), NumberCond(a, m, v), NumberCond(a, m, v), C3(a, m, v)>>
    ELSE LET m == MethodPairs[y[3]]
    IN IF y[1] = "path" THEN Seq1(Len(PathSets[y[2]]), LAMBDA i : As(Dirs[y[4]], C3(PathSets[y[2]][i], m, ValueOf(m))))
       ELSE Flat1(Len(Parents), LAMBDA i : Seq1(Len(Rels), LAMBDA j :
                WQuant(<<"ANY", "ALL">>[y[2]], Parents[i],
                       LET c == C3(Rels[j], m, ValueOf(m)) IN CASE y[4] = 1 -> c [] y[4] = 2 -> WAnd(<<c>>) [] OTHER -> WNot(WNot(c)))))
Law(y) == LET s == Spellings(y)
          IN \A i \in 1..Len(s) : /\ ~IsErr(Conditions(s[i], "yaml"))
                                  /\ Tests(s[i], M1(y)).f = Tests(s[1], M1(y)).f
                                  /\ Tests(s[i], M2(y)).f = Tests(s[1], M2(y)).f
Title(y) == "notation " \o ToString(y)
History(y) == LET s == Spellings(y) IN
    <<PutMsg("m", M1(y), "raw"), PutMsg("p", M2(y), "parsed")>>
    \o Flat1(Len(s), LAMBDA i : <<LoadF(Name("r", i), WithCond(s[i]), IF i % 2 = 0 THEN "json" ELSE "yaml"), Test(Name("r", i), "m"), Test(Name("r", i), "p")>>)
    \o (IF y[1] = "value" THEN <<PutMsg("q", M1(y), "parsed")>> \o Seq1(Len(s), LAMBDA i : Test(Name("r", i), "q")) \o Seq1(Len(s), LAMBDA i : [op |-> "hash", h |-> "r1", to |-> Name("r", i)]) ELSE <<>>)

VARIABLES x, done
Init == /\ LET all == TLCEval(Cases) IN \E i \in 1..Len(all) : x = all[i]
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
