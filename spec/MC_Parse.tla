-------------------------------- MODULE MC_Parse --------------------------------
(* Every way of nesting the words of the grammar around good and bad conditions, up *)
(* to depth two: which are accepted, and what the accepted ones mean.           *)
EXTENDS Small

Good == C3("jsonpath:$.a", "EQ", "1")
Rel == C3("jsonpath:$RELATIVE.a", "EQ", "1")
NoValue == Obj(<<Pair("attribute", Str("jsonpath:$.a")), Pair("method", Str("EX"))>>)
NoMethod == Obj(<<Pair("attribute", Str("jsonpath:$.a")), Pair("value", Str("1"))>>)
Extra == Obj(<<Pair("attribute", Str("jsonpath:$.a")), Pair("method", Str("EQ")), Pair("other", Str("1")), Pair("value", Str("1"))>>)
Third == Obj(<<Pair("attribute", Str("jsonpath:$.a")), Pair("method", Str("EX")), Pair("other", Str("1"))>>)
Capital == Obj(<<Pair("Attribute", Str("jsonpath:$.a")), Pair("Method", Str("EQ")), Pair("Value", Str("1"))>>)
Typed(k) == Obj(<<Pair("attribute", Str("jsonpath:$.a")), Pair("method", Str("EQ")), Pair("value", Str("1"))>> \o k)
IntKey == Pair("valueInt", Numb("1"))
FloatKey == Pair("ValueFloat", Numb("2"))
RetPair == Pair("returnValueJsonpath", Obj(<<Pair("r", Str("jsonpath:$.a"))>>))
BadMethod == C3("jsonpath:$.a", "ABOUT", "1")
BadOrder == C3("jsonpath:$.a", "GT", "abc")
Leaf0 == <<Good, Rel, NoValue, NoMethod, Extra, BadMethod, BadOrder, Obj(<<>>), Str("x"), Arr(<<>>)>>
Leaf1 == <<Third, Capital, Typed(<<IntKey>>), Typed(<<FloatKey>>), Typed(<<IntKey, FloatKey>>), Typed(<<IntKey, Pair("extra", Str("1"))>>),
           Typed(<<RetPair>>), Typed(<<IntKey, RetPair>>), Obj(<<Pair("attribute", Str("jsonpath:$.a")), Pair("method", Str("EX")), RetPair>>),
           Obj(<<Pair("method", Str("EX")), RetPair>>), Obj(<<Pair("attribute", Str("jsonpath:$.a")), Pair("method", Str("EQ")), IntKey>>)>>
P == Pair("parentJsonpathAttribute", Str("jsonpath:$.l"))
BadP == Pair("parentJsonpathAttribute", Str("$.l"))
Words == <<"AND", "OR", "NOT", "condition", "ANY", "XOR", "and">>
Under(k, x) == Obj(<<Pair(k, x)>>)
Wrap(x) == Seq1(7, LAMBDA i : Under(Words[i], x)) \o Seq1(7, LAMBDA i : Under(Words[i], Arr(<<x>>)))
           \o <<Arr(<<x>>), Under("ANY", Obj(<<Pair("condition", x), P>>)), Under("ALL", Obj(<<Pair("condition", x), P>>)),
                Under("AND", Obj(<<Pair("condition", x), P>>)), Under("ANY", Obj(<<Pair("AND", Arr(<<x, Rel>>)), P>>)),
                Under("ANY", Obj(<<Pair("NOT", x), P>>)), Under("ALL", Obj(<<Pair("condition", x), BadP>>)), Under("ALL", Obj(<<P>>)),
                Under("ANY", Obj(<<Pair("OR", Arr(<<x>>)), Pair("condition", x), P>>))>>
Pairs2(x, y) == <<WAnd(<<x, y>>), WOr(<<x, y>>), Arr(<<x, y>>), Obj(<<Pair("AND", x), Pair("OR", y)>>)>>
WrapAll(s) == Flat1(Len(s), LAMBDA i : Wrap(s[i]))
Cross(s, t) == Flat1(Len(s), LAMBDA i : Flat1(Len(t), LAMBDA j : Pairs2(s[i], t[j])))
(* parent and return paths of the wrong shape *)
Par(v) == Pair("parentJsonpathAttribute", v)
RetV(v) == Pair("returnValueJsonpath", v)
Rel1 == Obj(<<Pair("r", Str("jsonpath:$RELATIVE.a"))>>)
Parents0 == <<Numb("1"), Str(""), Str("jsonpath:"), Str("jsonpath:$"), Str("jsonpath:$l"), Str("jsonpath:l"), Str("jsonpath:.l"), Str("jsonpath:$RELATIVE.l"),
              Str("jsonpath:$RELATIVE"), Str("jsonpath:$.l[*]"), Arr(<<Str("jsonpath:$.l")>>), Obj(<<>>)>>
Returns0 == <<Rel1, Obj(<<>>), Obj(<<Pair("r", Str("jsonpath:$.a"))>>), Obj(<<Pair("r", Str("$RELATIVE.a"))>>), Obj(<<Pair("r", Numb("1"))>>), Str("jsonpath:$RELATIVE.a"), Arr(<<>>),
              Obj(<<Pair("r", Str("jsonpath:$RELATIVE.a")), Pair("s", Str("x"))>>)>>
Odd(k) == Seq1(Len(Parents0), LAMBDA i : Under(k, Obj(<<Pair("condition", Rel), Par(Parents0[i])>>)))
          \o Seq1(Len(Returns0), LAMBDA i : Under(k, Obj(<<Pair("condition", Rel), P, RetV(Returns0[i])>>)))
          \o <<Under(k, Obj(<<P, RetV(Rel1)>>)), Under(k, Obj(<<Pair("condition", Rel), RetV(Rel1)>>)), Under(k, Obj(<<Pair("condition", Rel), Pair("other", Rel), P>>)),
               Under(k, Obj(<<Pair("condition", Rel), Pair("ParentJsonpathAttribute", Str("jsonpath:$.l"))>>)), Under(k, Obj(<<Pair("other", Rel), P>>))>>
Level1 == WrapAll(Leaf0 \o Leaf1) \o Cross(Leaf0, Leaf0)
Small1 == WrapAll(<<Good, NoMethod>>) \o <<WAnd(<<Good, Rel>>), WOr(<<Good, BadMethod>>)>>
Level2 == WrapAll(IF Deep2 THEN Level1 ELSE Small1) \o Cross(Small1, <<Good>>)
Cases == Leaf0 \o Leaf1 \o Odd("ANY") \o Odd("ALL") \o Odd("AND") \o Level1 \o Level2
M0 == WithDoc(Obj(<<Pair("a", Numb("1")), Pair("l", Arr(<<Obj(<<Pair("a", Numb("1"))>>)>>))>>))
Tree0(y) == Conditions(y, "yaml")
RECURSIVE Empty(_)
Empty(t) == (t.n \in {"and", "or"} /\ t.c = <<>>) \/ \E i \in 1..Len(t.c) : Empty(t.c[i])       \* AND or OR of nothing inside
Law(y) == LET t == Tree0(y) IN
          /\ y.t = "s" => IsErr(t)
          /\ y.t = "o" /\ IsErr(Interpret(y, "")) => IsErr(Interpret(WAnd(<<y>>), "")) /\ IsErr(Interpret(WNot(y), ""))      \* an error inside is an error
          /\ ~IsErr(Interpret(y, "")) => ~IsErr(Interpret(WAnd(<<y, Good>>), ""))
          /\ ~IsErr(t) => TreeOk(t) \/ Empty(t)                      \* what is accepted can be prepared
Title(y) == "grammar " \o Json(y)
History(y) == <<LoadF("y", WithCond(y), "yaml"), LoadF("j", WithCond(y), "json"), PutMsg("m", M0, "raw")>>
              \o (IF IsErr(Tree0(y)) THEN <<>> ELSE <<[op |-> "val", h |-> "y"], Test("y", "m")>>)
              \o (IF IsErr(Conditions(y, "json")) THEN <<>> ELSE <<Test("j", "m"), One("j", "m")>>)

VARIABLES x, done
Init == /\ LET all == TLCEval(Cases) IN \E i \in 1..Len(all) : x = all[i]
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
