-------------------------------- MODULE MC_Mongo --------------------------------
(* The translation of every tree of depth two over conditions on a document, checked *)
(* on every small document; documents hold the types the conditions compare with. *)
EXTENDS Small

Leaf0 == {C3("jsonpath:$.s", "EQ", "x"), C3("jsonpath:$.s", "NEQ", "x"), C3("jsonpath:$.n", "GT", "1"), C3("jsonpath:$.n", "LE", "1"),
          C3("jsonpath:$.s", "EX", ""), C3("jsonpath:$.s", "NEX", ""), C3("jsonpath:$.s", "RE", "^x"), C3("jsonpath:$.s", "NRE", "^x"),
          C3("jsonpath:$.s", "IN", "x,y"), C3("jsonpath:$.s", "NIN", "x,y"), C3("jsonpath:$.o.s", "EQ", "x"), C3("jsonpath:$.o.s", "NEQ", "x"), C3("jsonpath:$.n", "EQ", "1")}
RelS(m, v) == C3("jsonpath:$RELATIVE.s", m, v)
Quants == {WQuant(k, "jsonpath:$.l" \o e, b) : k \in {"ANY", "ALL"}, e \in {"", "[:]"},
             b \in {RelS("EQ", "x"), RelS("NEQ", "x"), WNot(RelS("EQ", "x")), WAnd(<<RelS("NEQ", "x"), RelS("EX", "")>>), RelS("NEX", ""),
                    WQuant("ANY", "jsonpath:$RELATIVE.k", RelS("EQ", "x")), WQuant("ALL", "jsonpath:$RELATIVE.k", RelS("EQ", "x")),
                    WNot(WQuant("ANY", "jsonpath:$RELATIVE.k", RelS("NEQ", "x")))}}
Not1 == {C3("domain", "EQ", "x"), WQuant("ANY", "jsonpath:$.l", C3("jsonpath:$.s", "EQ", "x")), C3("jsonpath:$KEY", "EQ", "x")}
Unit == Leaf0 \cup Quants
Few == {C3("jsonpath:$.s", "EQ", "x"), C3("jsonpath:$.n", "GT", "1"), WQuant("ALL", "jsonpath:$.l", RelS("EQ", "x"))}
Cases == Unit \cup {WNot(u) : u \in Unit} \cup {WAnd(<<u, f>>) : u \in Unit, f \in Few} \cup {WOr(<<f, u>>) : u \in Unit, f \in Few}
         \cup {WNot(WAnd(<<u, f>>)) : u \in Unit, f \in Few} \cup {WNot(WNot(u)) : u \in Unit} \cup Not1
         \cup (IF Deep2 THEN {WAnd(<<u, f>>) : u \in Unit, f \in Unit} \cup {WNot(WOr(<<u, f>>)) : u \in Unit, f \in Unit} ELSE {})
Els == <<Obj(<<Pair("s", Str("x"))>>), Obj(<<Pair("s", Str("y"))>>), Obj(<<Pair("q", Str("y"))>>),
        Obj(<<Pair("k", Arr(<<Obj(<<Pair("s", Str("x"))>>), Obj(<<Pair("s", Str("y"))>>)>>)), Pair("s", Str("x"))>>), Obj(<<Pair("k", Arr(<<Obj(<<Pair("s", Str("x"))>>)>>))>>)>>
Lists == <<<<>>>> \o Seq1(Len(Els), LAMBDA i : <<Els[i]>>) \o Seq1(Len(Els), LAMBDA i : <<Els[1], Els[i]>>)
Flat2(n, t) == Obj(<<Pair("n", Numb(n)), Pair("o", Obj(<<Pair("s", Str(t))>>)), Pair("s", Str(t))>>)
Docs == Seq1(Len(Lists), LAMBDA i : Obj(<<Pair("l", Arr(Lists[i])), Pair("z", Str("z"))>>))
        \o <<Flat2("1", "x"), Flat2("1", "xy"), Flat2("2", "x"), Flat2("2", "xy"), Obj(<<Pair("z", Numb("1"))>>),
             Obj(<<Pair("l", Arr(<<Obj(<<Pair("s", Str("x"))>>)>>)), Pair("n", Numb("2")), Pair("s", Str("y"))>>)>>
Tree0(w) == Conditions(w, "yaml")
Law(w) == LET t == Tree0(w)
          IN /\ Translates(t, FALSE, 0, FALSE) <=> w \notin Not1
             /\ Translates(t, FALSE, 0, FALSE) <=> Translates(NotNode(t), FALSE, 0, FALSE)
Title(w) == "query " \o Json(w)
History(w) == <<Load("r", WithCond(w)), [op |-> "mongo", h |-> "r", base |-> "", docs |-> Docs], [op |-> "mongo", h |-> "r", base |-> "raw", docs |-> Docs]>>

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
