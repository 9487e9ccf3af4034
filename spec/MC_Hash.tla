--------------------------------- MODULE MC_Hash --------------------------------
(* All pairs of small rules: fingerprints agree exactly for rules that differ in *)
(* irrelevant ways only.                                                        *)
EXTENDS Small

A == C3("jsonpath:$.a", "EQ", "1")
B == C3("jsonpath:$.b", "EQ", "1")
R == C3("jsonpath:$RELATIVE.a", "EQ", "1")
Trees == <<A, B, C3("jsonpath:$.a", "NEQ", "1"), C3("jsonpath:$.a", "EQ", "2"), WAnd(<<A>>), WOr(<<A>>), WNot(A), WNot(WNot(A)), WNot(B),
           WAnd(<<A, B>>), WAnd(<<B, A>>), WOr(<<A, B>>), WOr(<<B, A>>), WAnd(<<A, A>>), WAnd(<<A, B, A>>), WAnd(<<A, A, B>>),
           WAnd(<<WAnd(<<A, B>>), A>>), WAnd(<<A, WAnd(<<B, A>>)>>), WOr(<<WAnd(<<A, B>>), A>>), WAnd(<<WOr(<<A, B>>), A>>),
           WAnd(<<A, WOr(<<B, A>>)>>), WNot(WAnd(<<A, B>>)), WNot(WOr(<<A, B>>)), WOr(<<WNot(A), WNot(B)>>), WAnd(<<WNot(A), B>>), WAnd(<<A, WNot(B)>>),
           WQuant("ANY", "jsonpath:$.l", R), WQuant("ALL", "jsonpath:$.l", R), WQuant("ANY", "jsonpath:$.k", R), WQuant("ANY", "jsonpath:$.l", WNot(R)),
           WNot(WQuant("ANY", "jsonpath:$.l", R)), WQuant("ANY", "jsonpath:$.l", WAnd(<<R, A>>)), WQuant("ANY", "jsonpath:$.l", WAnd(<<A, R>>)),
           WQuantR("ANY", "jsonpath:$.l", R, "x", "jsonpath:$RELATIVE.a"), WQuantR("ANY", "jsonpath:$.l", R, "x", "jsonpath:$RELATIVE.b"),
           WQuantR("ANY", "jsonpath:$.l", R, "y", "jsonpath:$RELATIVE.a"),
           WQuantR("ALL", "jsonpath:$.l", R, "x", "jsonpath:$RELATIVE.a")>>
Heads == <<Rule0, [Rule0 EXCEPT !.dec = "BLOCK"], [Rule0 EXCEPT !.dec = "allow"], [Rule0 EXCEPT !.sn = "a"], [Rule0 EXCEPT !.rn = "a"],
           [Rule0 EXCEPT !.sn = "A"], [Rule0 EXCEPT !.st = "workload"], [Rule0 EXCEPT !.st = "WORKLOAD"], [Rule0 EXCEPT !.rt = "workload"], [Rule0 EXCEPT !.rt = "hostname"],
           [Rule0 EXCEPT !.oper = "get"], [Rule0 EXCEPT !.oper = "GET"], [Rule0 EXCEPT !.proto = "http"], [Rule0 EXCEPT !.proto = "HTTP"],
           [Rule0 EXCEPT !.proto = "http", !.rest = "path", !.resn = "/x"], [Rule0 EXCEPT !.proto = "http", !.rest = "path", !.resn = "/X"],
           [Rule0 EXCEPT !.proto = "http", !.rest = "port", !.resn = "/x"], [Rule0 EXCEPT !.id = "other"],
           [Rule0 EXCEPT !.meta = <<Pair("owner", "x")>>]>>
All1 == Seq1(Len(Trees), LAMBDA i : WithCond(Trees[i])) \o Heads
Cases == 1..Len(All1)
Docs == {Obj(<<Pair("a", Numb("1")), Pair("b", Numb("2"))>>), Obj(<<Pair("b", Numb("1")), Pair("l", Arr(<<Obj(<<Pair("a", Numb("1"))>>)>>))>>)}
\* rules with equal fingerprints decide alike
Law(i) == LET rs == Seq1(Len(All1), LAMBDA j : AsRule(All1[j]))
              fs == Seq1(Len(All1), LAMBDA j : CanonTree(rs[j].t))
              Says(j, d) == TestHandle(Give(Handle(rs[j]), EmptySet), WithDoc(d)).f
          IN /\ SameRule(rs[i], rs[i])
             /\ \A j \in 1..Len(All1) : fs[i] = fs[j] => \A d \in Docs : Says(i, d) = Says(j, d)
Title(i) == "fingerprint " \o NatText(i)
\* r1 is rule i, loaded from text; the others come from the formats in turn
Fmt(j) == IF j % 3 = 0 THEN "json" ELSE IF j % 3 = 1 THEN "yaml" ELSE "bson"
History(i) == <<LoadF("r", All1[i], "yaml"), PutMsg("m", WithDoc(Obj(<<Pair("a", Numb("1")), Pair("b", Numb("2"))>>)), "raw")>>
              \o Flat1(Len(All1), LAMBDA j : <<LoadF(Name("q", j), All1[j], Fmt(j)), [op |-> "hash", h |-> "r", to |-> Name("q", j)]>>)
              \o <<One("r", "m"), Test("r", "m"), [op |-> "prep", h |-> "r", p |-> EmptySet, via |-> "rule"]>>
              \o Flat1(Len(All1), LAMBDA j : <<[op |-> "hash", h |-> Name("q", j), to |-> "r"]>>)

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
