--------------------------------- MODULE MC_Pure --------------------------------
(* Every pair (triple) of calls that must not change anything, between two looks at *)
(* the same results, texts and fingerprints.                                    *)
EXTENDS Small

Quant1 == WQuantR("ANY", "jsonpath:$.l", WAnd(<<WQuant("ANY", "jsonpath:$RELATIVE.i", C3("jsonpath:$RELATIVE.v", "EQ", "1")), C3("jsonpath:$RELATIVE.a", "EQ", "1")>>), "a", "jsonpath:$RELATIVE.a")
Rules1 == <<WithCond(Quant1), WithCond(WNot(WAnd(<<C3("domain", "IN", "#n"), C3("jsonpath:$.z", "GT", "1K")>>))), [Rule0 EXCEPT !.st = "workload", !.sn = "#n"],
            WithCond(WQuant("ALL", "jsonpath:$.o", WOr(<<C3("jsonpath:$KEY", "EQ", "k"), C3("jsonpath:$VALUE", "RE", "^2")>>)))>>
Doc1 == Obj(<<Pair("l", Arr(<<Obj(<<Pair("a", Numb("1")), Pair("i", Arr(<<Obj(<<Pair("v", Numb("1"))>>), Obj(<<Pair("v", Numb("2"))>>)>>))>>),
                              Obj(<<Pair("a", Numb("2"))>>)>>)), Pair("o", Obj(<<Pair("j", Numb("2")), Pair("k", Numb("1"))>>)), Pair("z", Numb("2000"))>>)
Set1 == [s |-> <<>>, l |-> <<Pair("n", <<"svc.a", "prod">>)>>]
Call(k) == CASE k = "one" -> <<One("r", "m")>>
             [] k = "test" -> <<Test("r", "m")>>
             [] k = "check" -> <<Check(<<"r", "q">>, "m")>>
             [] k = "other" -> <<One("q", "m")>>
             [] k = "val" -> <<[op |-> "val", h |-> "r"]>>
             [] k = "hash" -> <<[op |-> "hash", h |-> "r", to |-> "q"]>>
             [] k = "mongo" -> <<[op |-> "mongo", h |-> "r", base |-> "", docs |-> <<>>]>>
             [] k = "bson" -> <<[op |-> "rt", h |-> "r", to |-> "t", fmt |-> "bson"]>>
             [] k = "json" -> <<[op |-> "rt", h |-> "r", to |-> "t", fmt |-> "json"]>>
             [] k = "cov" -> <<[op |-> "cov", hs |-> <<"r", "q">>, ms |-> <<"m", "n">>]>>
             [] k = "copy" -> <<[op |-> "copy", h |-> "r", to |-> "t"], [op |-> "setp", h |-> "t", p |-> EmptySet]>>
             [] OTHER -> <<Test("r", "n")>>
Kinds == {"one", "test", "check", "other", "val", "hash", "mongo", "bson", "json", "cov", "copy", "empty"}
Cases == {y \in [r : 1..Len(Rules1), k : SeqsUpTo(Kinds, IF Deep2 THEN 3 ELSE 2), mode : {"raw", "parsed"}] : Len(y.k) > 1}
Law(y) == Gives(Rule0, WithDoc(Doc1)).d = BLOCK
Looks == <<[op |-> "snap", h |-> "r"], [op |-> "msnap", m |-> "m"], Test("r", "m"), Check(<<"r", "q">>, "m"), One("r", "m")>>
Title(y) == "no effect of " \o Join(y.k, " ") \o " on rule " \o NatText(y.r) \o " " \o y.mode
History(y) ==
    <<PutMsg("m", WithDoc(Doc1), y.mode), PutMsg("n", Msg0, "raw"), Load("r", Rules1[y.r]), Load("q", Rules1[1 + (y.r % 4)]),
      [op |-> "setp", h |-> "r", p |-> Set1], [op |-> "setp", h |-> "q", p |-> Set1], [op |-> "hash", h |-> "r", to |-> "r"]>>
    \o Looks \o Flat1(Len(y.k), LAMBDA i : Call(y.k[i])) \o Looks \o <<[op |-> "snap", h |-> "q"], [op |-> "hash", h |-> "q", to |-> "r"], Test("q", "m")>>

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
