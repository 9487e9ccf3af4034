------------------------------- MODULE MC_Pattern -------------------------------
(* Every pattern up to length three (four) over a, dot, star and question mark, and *)
(* every text up to length three (four), in each place of a rule that takes names. *)
EXTENDS Small

Alphabet == {"a", ".", "*", "?"}
Pats == Texts(Alphabet, IF Deep2 THEN 4 ELSE 3) \ {""}
Subjects == Listed(Texts({"a", ".", "b"}, IF Deep2 THEN 4 ELSE 3))
Places == {"sender", "receiver", "host", "path", "port", "method"}
Cases == [p : Pats, where : Places, l : BOOLEAN]
Written(y) == IF y.l THEN "no, " \o y.p \o " ,-" ELSE y.p
PlaceRule(y) == LET w == Written(y) IN
    CASE y.where = "sender" -> [Rule0 EXCEPT !.st = "workload", !.sn = w]
      [] y.where = "receiver" -> [Rule0 EXCEPT !.rt = "workload", !.rn = w]
      [] y.where = "host" -> [Rule0 EXCEPT !.rt = "hostname", !.rn = w]
      [] y.where = "path" -> [Rule0 EXCEPT !.proto = "http", !.rest = "*", !.resn = w]
      [] y.where = "port" -> [Rule0 EXCEPT !.proto = "tcp", !.resn = w]
      [] OTHER -> [Rule0 EXCEPT !.oper = w]
PlaceMsg(y, s) ==
    CASE y.where = "sender" -> [Msg0 EXCEPT !.ssvc = s]
      [] y.where = "receiver" -> [Msg0 EXCEPT !.dsvc = s]
      [] y.where = "host" -> [Msg0 EXCEPT !.host = s]
      [] y.where = "path" -> [Msg0 EXCEPT !.path = s]
      [] y.where = "port" -> [Msg0 EXCEPT !.port = s]
      [] OTHER -> [Msg0 EXCEPT !.method = s]
Plain(p) == ~Contains(p, "*") /\ ~Contains(p, "?")
Law(y) ==
    \A i \in 1..Len(Subjects) :
        LET s == Subjects[i] IN
        /\ NameMatches("*", s)
        /\ Wild(y.p, s) => /\ Wild(y.p \o "*", s) /\ Wild("*" \o y.p, s)
                           /\ Wild(y.p \o "?", s \o "a") /\ Wild("a" \o y.p, "a" \o s)
        /\ Plain(y.p) => (Wild(y.p, s) <=> s = y.p)
        /\ ~Contains(y.p, "*") => (Wild(y.p, s) => Len(s) = Len(y.p))
        /\ NameMatches(Written(y), s) = (Wild(y.p, s) \/ (y.l /\ s \in {"no", "-"}))
        /\ NameMatches(Written(y), s) = ServiceMatches(Written(y), s)
Title(y) == "pattern " \o y.where \o " " \o Written(y)
History(y) == <<Load("r", PlaceRule(y))>>
              \o Flat1(Len(Subjects), LAMBDA i : <<PutMsg("m", PlaceMsg(y, Subjects[i]), "raw"), One("r", "m")>>)

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
