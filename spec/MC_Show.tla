--------------------------------- MODULE MC_Show --------------------------------
(* The texts of a rule for people: every part given, not given or in capitals,  *)
(* every small condition, before and after the rule is used, lowered, prepared.  *)
EXTENDS Small

A == C3("jsonpath:$.a", "eq", "1")
B == C3("domain", "IN", "x,y")
R == C3("jsonpath:$RELATIVE.a", "GE", "2")
Conds == <<Absent, A, B, WNot(A), WAnd(<<A, B>>), WOr(<<B, A, A>>), WOr(<<WAnd(<<A, B>>), WNot(B)>>), WQuant("ANY", "jsonpath:$.l[:]", R),
           WQuant("ALL", "jsonpath:$.l", WAnd(<<R, A>>)), WNot(WQuantR("ANY", "jsonpath:$.k", R, "x", "jsonpath:$RELATIVE.a")), C3("domain", "EQ", "#one"),
           WAnd(<<C3("jsonpath:$.b", "NRE", "^a.*$"), WOr(<<C3("senderLabel[app]", "EX", ""), C3("payloadSize", "GT", "1Ki")>>)>>)>>
Heads == <<Rule0, [Rule0 EXCEPT !.sn = "a,b", !.st = "Workload"], [Rule0 EXCEPT !.rn = "x.y", !.rt = "hostname"], [Rule0 EXCEPT !.dec = "ALLOW", !.oper = "GET,POST"],
           [Rule0 EXCEPT !.proto = "HTTP", !.rest = "path", !.resn = "/x/*"], [Rule0 EXCEPT !.proto = "tcp", !.rest = "port", !.resn = "443"],
           [Rule0 EXCEPT !.proto = ""], [Rule0 EXCEPT !.oper = ""], [Rule0 EXCEPT !.sn = "#one"], [Rule0 EXCEPT !.dec = "alert", !.meta = <<Pair("description", "d")>>]>>
Uses == {"test", "set", "low", "prep", "trip", "hash"}
Cases == [c : 1..Len(Conds), h : 1..Len(Heads), u : {<<u>> : u \in Uses} \cup (IF Deep2 THEN Uses \X Uses ELSE {})]
Written(y) == IF y.c = 1 THEN Heads[y.h] ELSE [Heads[y.h] EXCEPT !.cond = Conds[y.c]]
Set1 == [s |-> <<Pair("one", "prod")>>, l |-> <<>>]
\* what is shown identifies the definition up to what is not shown
Law(y) == LET r == AsRule(Written(y))
              o == [snd |-> TypeAndName(r.st, r.sn), rcv |-> TypeAndName(r.rt, r.rn), proto |-> OrDefault(r.proto), oper |-> OrDefault(r.oper), dec |-> OrDefault(r.dec),
                    res |-> IF r.rest = "" THEN "default:default" ELSE TypeAndName(r.rest, r.resn), cond |-> IF r.t.n = "none" THEN "" ELSE CanonTree(r.t) \o "ANY ALL"]
          IN /\ ShownDiff(r, o) = <<>>
             /\ \A f \in {"snd", "rcv", "proto", "oper", "dec", "res"} : ShownDiff(r, [o EXCEPT ![f] = @ \o "x"]) # <<>>
             /\ r.t.n # "none" => ShownDiff(r, [o EXCEPT !.cond = ""]) # <<>>
Title(y) == "shown " \o NatText(y.c) \o " " \o NatText(y.h) \o " " \o Join(y.u, "+")
Show(h) == [op |-> "show", h |-> h]
Use1(u) == CASE u = "test" -> <<Test("r", "m"), One("r", "m")>>
             [] u = "set" -> <<[op |-> "setp", h |-> "r", p |-> Set1], One("r", "m")>>
             [] u = "low" -> <<[op |-> "low", h |-> "r"]>>
             [] u = "prep" -> <<[op |-> "prep", h |-> "r", p |-> Set1, via |-> "rule"]>>
             [] u = "trip" -> <<[op |-> "rt", h |-> "r", to |-> "r", fmt |-> "json"]>>
             [] OTHER -> <<[op |-> "hash", h |-> "r", to |-> "r"], [op |-> "val", h |-> "r"]>>
Freed(es) == Seq1(Len(es), LAMBDA i : es[i] @@ [free |-> TRUE])
History(y) == <<LoadF("r", Written(y), IF (y.c + y.h) % 2 = 0 THEN "yaml" ELSE "json"), PutMsg("m", WithDoc(Obj(<<Pair("a", Numb("1"))>>)), "raw"), Show("r")>>
              \o Flat1(Len(y.u), LAMBDA i : Freed(Use1(y.u[i])) \o <<Show("r")>>)

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
