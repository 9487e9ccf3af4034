--------------------------------- MODULE MC_Cov ---------------------------------
(* Coverage of every pair of rules by every list of up to three messages.       *)
EXTENDS Small

Kinds == {"a", "b", "any", "none", "alert a"}
Rs(k, i) == [Rule0 EXCEPT !.id = NatText(i), !.st = "workload", !.sn = CASE k = "any" -> "*" [] k = "none" -> "zz" [] k = "alert a" -> "a" [] OTHER -> k,
                          !.dec = CASE k = "alert a" -> "alert" [] k = "any" -> "allow" [] OTHER -> "block"]
MKinds == {<<"m1", "a">>, <<"m2", "b">>, <<"m3", "c">>, <<"m1", "b">>}
Cases == [r : SeqsUpTo(Kinds, 2), m : SeqsUpTo(MKinds, IF Deep2 THEN 3 ELSE 2)]
Hds(y) == Seq1(Len(y.r), LAMBDA i : Handle(AsRule(Rs(y.r[i], i))))
Ms(y) == Seq1(Len(y.m), LAMBDA j : [Msg0 EXCEPT !.id = y.m[j][1], !.ssvc = y.m[j][2]])
Law(y) == LET c == CoverageOf(Hds(y), Ms(y), EmptySet)
          IN /\ Len(c.rule) = Len(y.r)
             /\ Len(c.msg) = Cardinality({y.m[j][1] : j \in 1..Len(y.m)})
             /\ \A j \in 1..Len(y.m) : (\A i \in 1..Len(y.r) : Gives(Rs(y.r[i], i), Ms(y)[j]).d = 0) /\ (\A k \in (j + 1)..Len(y.m) : y.m[k][1] # y.m[j][1])
                    => \E l \in 1..Len(c.msg) : HasPrefix(c.msg[l], y.m[j][1] \o "|-|")
Title(y) == "coverage " \o Join(y.r, ",") \o " of " \o Join(Seq1(Len(y.m), LAMBDA j : y.m[j][1] \o y.m[j][2]), ",")
History(y) == LET ms == Ms(y) IN
              Seq1(Len(y.r), LAMBDA i : Load(Name("r", i), Rs(y.r[i], i)))
              \o Seq1(Len(ms), LAMBDA j : PutMsg(Name("m", j), ms[j], "raw"))
              \o <<[op |-> "cov", hs |-> Seq1(Len(y.r), LAMBDA i : Name("r", i)), ms |-> Seq1(Len(ms), LAMBDA j : Name("m", j))]>>

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
