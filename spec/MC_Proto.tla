-------------------------------- MODULE MC_Proto --------------------------------
(* Protocol, resource type and resource name of a rule against those of a message. *)
EXTENDS Small

Protos == {"http", "HTTP", "Http", "kafka", "tcp", "*", "ht", "httpx"}
Rests == {"path", "port", "*", "", "PATH", "consumerGroup"}
Resns == {"/x", "8080", "*", "/*", "80*", "/x,/y"}
Cases == [p : Protos, t : Rests, n : Resns]
MsgCases == Listed([p : {"http", "HTTP", "kafka", "tcp", ""}, t : {"path", "port", "", "Path"}, n : {"/x", "8080", "/y/z", ""}, q : {"8080", "80", "/x"}])
Used(y) == IF Deep2 \/ y.n \in {"/x", "8080", "*"} THEN MsgCases ELSE Filter(MsgCases, LAMBDA z : z.q = "8080")
ProtoRule(y) == [Rule0 EXCEPT !.proto = y.p, !.rest = y.t, !.resn = y.n]
ProtoMsg(z) == [Msg0 EXCEPT !.proto = z.p, !.ptype = z.t, !.path = z.n, !.port = z.q]
Law(y) == \A i \in 1..Len(MsgCases) :
            LET z == MsgCases[i]
                f == ResourceMatches(ProtoRule(y), ProtoMsg(z))
            IN /\ y.p = "*" => f
               /\ y.p = "tcp" => (f <=> NameMatches(y.n, z.q))
               /\ y.p \notin {"*", "tcp"} /\ f => Lower(y.p) = Lower(z.p) /\ (y.t \in {"*", z.t}) /\ NameMatches(y.n, z.n)
Title(y) == "resource " \o y.p \o " " \o y.t \o " " \o y.n
History(y) == LET s == TLCEval(Used(y))
              IN <<Load("r", ProtoRule(y))>>
                 \o Flat1(Len(s), LAMBDA i : <<PutMsg("m", ProtoMsg(s[i]), "raw"), One("r", "m")>>)

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
