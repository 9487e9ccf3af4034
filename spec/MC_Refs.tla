--------------------------------- MODULE MC_Refs --------------------------------
(* References to every kind of predefined name from every place, compared with the *)
(* same rule with the text written in place.                                    *)
EXTENDS Small

Sets == <<[s |-> <<Pair("one", "abc")>>, l |-> <<>>],
          [s |-> <<Pair("one", "abc,web"), Pair("two", "web")>>, l |-> <<Pair("many", <<"x", "abc">>)>>],
          [s |-> <<Pair("one", "x"), Pair("two", "web"), Pair("many", "q")>>, l |-> <<Pair("many", <<"#two", "x">>)>>],
          [s |-> <<Pair("one", "10.0.0.0/24")>>, l |-> <<Pair("many", <<"10.0.0.1", "10.0.0.2">>), Pair("one", <<"web">>)>>],
          [s |-> <<Pair("two", "web")>>, l |-> <<Pair("many", <<"#gone">>)>>],
          [s |-> <<>>, l |-> <<Pair("many", <<"abc">>), Pair("one", <<"web", "abc", "x">>)>>]>>
Names1 == {"#one", "#two", "#many", "#none"}
Places == {"sender", "receiver", "host", "subnetS", "subnetR", "EQ", "NEQ", "IN", "NIN", "RE", "NRE", "doc EQ", "doc IN", "doc RE", "nested", "re", "in"}
Cases == {y \in [p : 1..Len(Sets), n : Names1, w : Places] : Deep2 \/ TRUE}
R1(w, n) ==
    CASE w = "sender" -> [Rule0 EXCEPT !.st = "workload", !.sn = n]
      [] w = "receiver" -> [Rule0 EXCEPT !.rt = "workload", !.rn = n]
      [] w = "host" -> [Rule0 EXCEPT !.rt = "hostname", !.rn = n]
      [] w = "subnetS" -> [Rule0 EXCEPT !.st = "subnet", !.sn = n]
      [] w = "subnetR" -> [Rule0 EXCEPT !.rt = "subnet", !.rn = n]
      [] HasPrefix(w, "doc ") -> WithCond(C3("jsonpath:$.a", From(w, 5), n))
      [] w = "nested" -> WithCond(WNot(WAnd(<<WQuant("ANY", "jsonpath:$.l", C3("jsonpath:$RELATIVE", "IN", n)), True3>>)))
      [] OTHER -> WithCond(C3("domain", w, n))
Vals == <<"abc", "web", "x", "xx">>
Msgs(k) == [Msg0 EXCEPT !.ssvc = Vals[k], !.dsvc = Vals[k], !.host = Vals[k], !.dom = Vals[k],
              !.sip = <<"10.0.0.1", "10.0.0.77", "10.1.0.1", "">>[k], !.dip = <<"10.0.0.2", "10.0.0.77", "10.0.1.1", "">>[k],
              !.doc = Obj(<<Pair("a", Str(Vals[k])), Pair("l", Arr(<<Str(Vals[k]), Str("zz")>>))>>)]
Sep(w) == IF Contains(Upper(w), "RE") /\ w \notin {"receiver"} THEN "|" ELSE ","
Law(y) == LET p == Sets[y.p]
              r == AsRule(R1(y.w, y.n))
              hd == IF SetOk(p) THEN Give(Handle(r), p) ELSE Handle(r)
              text == Subst(y.n, Sep(y.w), p)
          IN /\ hd.ok => SetOk(p) /\ Defined(y.n, p)
             /\ SetOk(p) /\ ~Defined(y.n, p) => ~hd.ok
             /\ hd.ok => \A k \in 1..4 : ApplyHandle(hd, Msgs(k)) = ApplyHandle(Give(Handle(AsRule(R1(y.w, text))), EmptySet), Msgs(k))
             /\ hd.r = r                       \* the definition keeps the reference
Title(y) == "reference " \o y.n \o " in " \o y.w \o " with set " \o NatText(y.p)
History(y) == <<Load("r", R1(y.w, y.n)), [op |-> "snap", h |-> "r"], [op |-> "setp", h |-> "r", p |-> Sets[y.p]], [op |-> "snap", h |-> "r"],
                Load("g", R1(y.w, y.n)), [op |-> "setg", p |-> Sets[y.p]]>>
              \o Flat1(4, LAMBDA k : <<PutMsg("m", Msgs(k), "raw"), One("r", "m"), Check(<<"r", "g">>, "m")>>)
              \o <<[op |-> "rt", h |-> "r", to |-> "q", fmt |-> "json"], One("q", "m"), Test("g", "m")>>
              \o (IF SetOk(Sets[y.p]) /\ CanPrepare(AsRule(R1(y.w, y.n)), Sets[y.p])         \* in place, and written out
                  THEN <<Load("i", R1(y.w, y.n)), [op |-> "prep", h |-> "i", p |-> Sets[y.p], via |-> "list"],
                         Load("t", R1(y.w, Subst(y.n, Sep(y.w), Sets[y.p]))), [op |-> "hash", h |-> "i", to |-> "t"],
                         [op |-> "rt", h |-> "i", to |-> "j", fmt |-> "bson"], [op |-> "setg", p |-> EmptySet]>>
                       \o Flat1(4, LAMBDA k : <<PutMsg("m", Msgs(k), "raw"), One("i", "m"), Check(<<"j", "t">>, "m")>>)
                  ELSE <<>>)

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
