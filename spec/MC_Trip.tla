--------------------------------- MODULE MC_Trip --------------------------------
(* Round trips through the serialised forms, in every order up to three, of rules of *)
(* every kind, used or given a set before.                                      *)
EXTENDS Small

Ret == WQuantR("ANY", "jsonpath:$.l", C3("jsonpath:$RELATIVE.v", "EQ", "1"), "w", "jsonpath:$RELATIVE.w")
Rules1 == <<Rule0, WithCond(C3("jsonpath:$.a", "EQ", "1")), WithCond(CR("jsonpath:$.a", "GE", "1", "a", "jsonpath:$.a")), WithCond(WNot(C3("domain", "IN", "#one"))), WithCond(Ret),
            WithCond(WAnd(<<Ret, WOr(<<WNot(C3("payloadSize", "GT", "1K")), True3>>)>>)),
            [WithCond(WQuant("ALL", "jsonpath:$.l", WNot(C3("jsonpath:$RELATIVE.v", "RE", "^2")))) EXCEPT !.dec = "ALERT", !.meta = <<Pair("description", "d"), Pair("owner", "x y")>>],
            [Rule0 EXCEPT !.st = "subnet", !.sn = "10.0.0.0/24", !.rt = "hostname", !.rn = "h.*", !.proto = "HTTP", !.rest = "path", !.resn = "/x,/y", !.oper = "READ", !.dec = "Allow"],
            WithCond(C3("senderLabel[app]", "EX", "")),
            WithCond(WQuantR("ALL", "jsonpath:$.l", C3("jsonpath:$RELATIVE.v", "IN", "1,2"), "w", "jsonpath:$RELATIVE.w")), WithCond(C3("jsonpath:$.l[0].v", "LT", "0.5Ki")),
            WithCond(WQuant("ANY", "jsonpath:$.o", WAnd(<<C3("jsonpath:$KEY", "EQ", "k"), C3("jsonpath:$VALUE", "IN", "1,2")>>)))>>
Fmts == {"json", "bson", "jsonlist"}
Cases == [r : 1..Len(Rules1), f : SeqsUpTo(Fmts, IF Deep2 THEN 3 ELSE 2) \ {<<>>}, pre : {"", "use", "set", "fail", "prep"}]
Set1 == [s |-> <<Pair("one", "prod")>>, l |-> <<>>]
Doc1 == Obj(<<Pair("a", Numb("1")), Pair("l", Arr(<<Obj(<<Pair("v", Numb("1")), Pair("w", Str("p"))>>), Obj(<<Pair("v", Numb("2"))>>)>>)), Pair("o", Obj(<<Pair("k", Numb("2"))>>))>>)
Law(y) == LET r == AsRule(Rules1[y.r])
          IN /\ ~IsErr(r.t) /\ CanPrepare(r, Set1)
             /\ SameRule(r, Prepared(r, Set1)) <=> CanPrepare(r, EmptySet)     \* no reference
Title(y) == "round trip of rule " \o NatText(y.r) \o " " \o Join(y.f, " ") \o " " \o y.pre
History(y) ==
    <<PutMsg("m", WithDoc(Doc1), "raw"), Load("q0", Rules1[y.r])>>
    \o (CASE y.pre = "use" -> <<One("q0", "m")>> [] y.pre = "set" -> <<[op |-> "setp", h |-> "q0", p |-> Set1]>>
          [] y.pre = "prep" -> <<[op |-> "prep", h |-> "q0", p |-> Set1, via |-> "rule"]>>
          [] y.pre = "fail" -> <<[op |-> "setp", h |-> "q0", p |-> EmptySet]>> [] OTHER -> <<>>)
    \o Flat1(Len(y.f), LAMBDA i : <<[op |-> "rt", h |-> Name("q", i - 1), to |-> Name("q", i), fmt |-> y.f[i]], [op |-> "hash", h |-> "q0", to |-> Name("q", i)]>>)
    \o <<[op |-> "setg", p |-> Set1], Test(Name("q", Len(y.f)), "m"), One(Name("q", Len(y.f)), "m"), [op |-> "val", h |-> Name("q", Len(y.f))],
         [op |-> "setp", h |-> Name("q", Len(y.f)), p |-> Set1], One(Name("q", Len(y.f)), "m"), One("q0", "m")>>

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
