---------------------------------- MODULE Small ----------------------------------
(* Small scope models: a model names a finite set of Cases, a Law of the          *)
(* specification that has to hold for each of them, and the History of calls that *)
(* puts the case to the engine. TLC checks the law and writes out the histories;  *)
(* the recorded answers are judged by Trace.                                      *)
EXTENDS Engine, Json, IOUtils

Deep2 == IOEnv.SCOPE = "large"            \* larger bounds of the thorough tier
Emit(name, evs) == PrintT("@@H " \o ToJson([id |-> name, ev |-> evs]))

(* written condition trees *)
C3(a, m, v) == Obj(<<Pair("attribute", Str(a)), Pair("method", Str(m)), Pair("value", Str(v))>>)
CR(a, m, v, name, path) == Obj(<<Pair("attribute", Str(a)), Pair("method", Str(m)),
                                 Pair("returnValueJsonpath", Obj(<<Pair(name, Str(path))>>)), Pair("value", Str(v))>>)
WAnd(s) == Obj(<<Pair("AND", Arr(s))>>)
WOr(s)  == Obj(<<Pair("OR", Arr(s))>>)
WNot(x) == Obj(<<Pair("NOT", x)>>)
WQuant(k, p, x) == Obj(<<Pair(k, Obj(<<Pair("condition", x), Pair("parentJsonpathAttribute", Str(p))>>))>>)
WQuantR(k, p, x, name, path) ==
    Obj(<<Pair(k, Obj(<<Pair("condition", x), Pair("parentJsonpathAttribute", Str(p)),
                        Pair("returnValueJsonpath", Obj(<<Pair(name, Str(path))>>))>>))>>)
True3 == C3("true", "EQ", "x")
False3 == C3("false", "EQ", "x")

(* rules and messages *)
Rule0 == [id |-> "r", st |-> "*", sn |-> "*", rt |-> "*", rn |-> "*", proto |-> "*", rest |-> "", resn |-> "",
          oper |-> "*", dec |-> "block", meta |-> <<>>, cond |-> Absent]
WithCond(x) == [Rule0 EXCEPT !.cond = x]
Msg0 == [id |-> "m", sip |-> "10.0.0.1", dip |-> "10.0.0.2", ssvc |-> "svc.a", dsvc |-> "svc.b", host |-> "h.example.com",
         proto |-> "http", ptype |-> "path", path |-> "/x", port |-> "8080", method |-> "GET", size |-> "100",
         hours |-> "8", encv |-> "1.2", enct |-> "TLS", ua |-> "curl", dom |-> "prod", sns |-> "ns1", dns |-> "ns2",
         scl |-> "c1", dcl |-> "c2", sl |-> <<>>, dl |-> <<>>, doc |-> Absent]
WithDoc(d) == [Msg0 EXCEPT !.doc = d]
AsRule(r) == RuleOf(r, "yaml")            \* the rule a text denotes
Gives(r, m) == LET hd == Give(Handle(AsRule(r)), EmptySet) IN ApplyHandle(hd, m)
Tests(x, m) == LET hd == Give(Handle(AsRule(WithCond(x))), EmptySet) IN TestHandle(hd, m)

(* calls *)
Name(p, i) == p \o NatText(i)
LoadF(h, r, fmt) == [op |-> "load", h |-> h, fmt |-> fmt, rule |-> r, style |-> "block"]
Load(h, r) == LoadF(h, r, "yaml")
PutMsg(m, a, mode) == [op |-> "msg", m |-> m, a |-> a, mode |-> mode]
One(h, m) == [op |-> "one", h |-> h, m |-> m, via |-> "func"]
Test(h, m) == [op |-> "test", h |-> h, m |-> m, via |-> "method"]
OneF(h, m) == [One(h, m) EXCEPT !.op = "onef"]          \* judged without the returned values
TestF(h, m) == [Test(h, m) EXCEPT !.op = "testf"]
Check(hs, m) == [op |-> "check", hs |-> hs, m |-> m]
Seq1(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Flat1(n, F(_)) == Flat(Seq1(n, F))
(* texts over an alphabet up to a length, sequences over a set up to a length *)
RECURSIVE Texts(_, _)
Texts(A, n) == IF n = 0 THEN {""} ELSE LET T == Texts(A, n - 1) IN T \cup {t \o a : t \in T, a \in A}
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == SeqsUpTo(S, n - 1) IN T \cup {Append(t, s) : t \in T, s \in S}
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
=================================================================================
