-------------------------------- MODULE MC_Decide --------------------------------
(* Every list of up to three (four) rules, each allowing, alerting, blocking, not *)
(* matching, failing its conditions or without a decision.                        *)
EXTENDS Small

Kinds == {"allow", "alert", "block", "other", "fails", "deny"}
KindRule(k, i) == [Rule0 EXCEPT !.id = NatText(i),
                     !.dec = IF k \in {"other", "fails"} THEN "block" ELSE k,
                     !.sn = IF k = "other" THEN "nobody" ELSE "*",
                     !.cond = IF k = "fails" THEN False3 ELSE Absent,
                     !.meta = <<Pair("description", "rule " \o NatText(i))>>]
Weight(k) == CASE k = "allow" -> 1 [] k = "alert" -> 2 [] k = "block" -> 3 [] OTHER -> 0
Cases == SeqsUpTo(Kinds, IF Deep2 THEN 4 ELSE 3)

Handles(x) == Seq1(Len(x), LAMBDA i : Handle(AsRule(KindRule(x[i], i))))
Result(x) == CheckList(Handles(x), Msg0, EmptySet)
Swap(x, i) == [x EXCEPT ![i] = x[i + 1], ![i + 1] = x[i]]
Law(x) ==
    LET r == Result(x)
    IN /\ \A i \in 1..Len(x) : Weight(x[i]) <= r.dec               \* the strictest wins
       /\ r.dec = 0 \/ \E i \in 1..Len(x) : Weight(x[i]) = r.dec
       /\ r.dec > 0 => /\ Weight(x[r.rel + 1]) = r.dec             \* first rule giving it
                       /\ \A i \in 1..r.rel : Weight(x[i]) < r.dec
                       /\ r.desc = "rule " \o NatText(r.rel + 1)
       /\ r.dec = 0 <=> r.rel = -1
       /\ \A i \in 1..(Len(x) - 1) : Result(Swap(x, i)).dec = r.dec
       /\ {r.app[j] + 1 : j \in 1..Len(r.app)} = {i \in 1..Len(x) : Weight(x[i]) > 0}

History(x) == LET hs == Seq1(Len(x), LAMBDA i : Name("r", i))
              IN Seq1(Len(x), LAMBDA i : Load(hs[i], KindRule(x[i], i)))
                 \o <<PutMsg("m", Msg0, "raw"), Check(hs, "m")>>
                 \o Seq1(Len(x), LAMBDA i : One(hs[i], "m"))
                 \o <<Check(hs, "m")>>

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit("decide " \o Join(x, " "), History(x))
Spec == Init /\ [][Next]_<<x, done>>
Inv == Law(x)
=================================================================================
