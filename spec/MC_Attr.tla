--------------------------------- MODULE MC_Attr --------------------------------
(* Every message attribute with every method, rule value and attribute value.   *)
EXTENDS Small

Labels == {"senderLabel[app]", "receiverLabel[app]"}
Labels2 == {"senderLabel[x.y/app-name]", "receiverLabel[x.y/app-name]"}
Attrs == {"payloadSize", "requestUseragent", "utcHoursFromMidnight", "encryptionType", "encryptionVersion", "domain",
          "$sender.namespace", "$sender.cluster", "$receiver.namespace", "$receiver.cluster", "true", "false"} \cup Labels \cup Labels2
RVals == {"100", "100.0", "0.1K", "abc", "web", "", "abc,web", "8", "1.2", "receiverLabel[app]", "receiverLabel[tier]", "receiverLabel[x.y/app-name]",
          "$receiver.namespace", "$receiver.cluster", "a"}
Plain1(a, m, v) == /\ CondOk(a, m, v)
                   /\ HasPrefix(v, "receiverLabel") => IsLabelAttr(a) /\ Upper(m) # "EX"
                   /\ HasPrefix(v, "$receiver") => IsObjectAttr(a) /\ HasPrefix(a, "$sender") /\ Upper(m) \notin {"RE", "NRE", "IN", "NIN", "IS", "EX", "NEX"}
                   /\ Contains(v, ".") /\ ~HasPrefix(v, "$") => a \in {"payloadSize", "utcHoursFromMidnight", "encryptionVersion"}
                   /\ HasPrefix(v, "$receiver") => HasPrefix(a, "$sender")
                   /\ HasPrefix(v, "receiverLabel") => HasPrefix(a, "senderLabel") /\ Upper(m) \notin {"RE", "NRE", "IN", "NIN", "IS"}
Cases == {y \in [a : Attrs, m : IF Deep2 THEN Methods ELSE {m \in Methods : Upper(m) = m}, v : RVals] :
             Plain1(y.a, y.m, y.v) /\ Defined(y.v, EmptySet) /\ TreeOk(CondNode(y.a, y.m, y.v, <<>>))}
Lab(v) == IF v = "-" THEN <<>> ELSE <<Pair("app", v), Pair("tier", "web"), Pair("x.y", "abc"), Pair("x.y/app-name", v)>>
M3(n) == [Msg0 EXCEPT !.size = <<"100", "1024", "0">>[n], !.hours = <<"8", "8.5", "0">>[n], !.encv = <<"1.2", "", "1.3">>[n], !.enct = <<"abc", "", "web">>[n],
            !.ua = <<"web", "abc", "">>[n], !.dom = <<"", "web", "abc">>[n], !.sns = <<"abc", "", "web">>[n], !.dns = <<"abc", "web", "a">>[n],
            !.scl = <<"web", "a", "">>[n], !.dcl = <<"", "a", "abc">>[n], !.sl = <<Lab("abc"), Lab("-"), Lab("web")>>[n], !.dl = <<Lab("abc"), Lab("web"), Lab("-")>>[n]]
Sees(y, m) == CondHolds(CondNode(y.a, y.m, y.v, <<>>), m, Absent)
Law(y) == \A n \in 1..3 :
            LET m == M3(n) u == Upper(y.m) f == Sees(y, m) IN
            /\ y.a = "true" => f
            /\ y.a = "false" => ~f
            /\ y.a = "encryptionVersion" /\ m.encv = "" => ~f
            /\ y.a = "senderLabel[app]" /\ m.sl = <<>> => (f <=> u = "NEX")
            /\ y.a = "receiverLabel[app]" /\ m.dl = <<>> => (f <=> u = "NEX")
            /\ y.a \notin Labels \cup Labels2 /\ y.a # "encryptionVersion" /\ y.a \notin {"true", "false"} /\ u \in {"EQ", "RE", "IN"} =>
                 (f <=> ~Sees([y EXCEPT !.m = CASE u = "EQ" -> "NEQ" [] u = "RE" -> "NRE" [] OTHER -> "NIN"], m))
                 \/ y.a \in {"payloadSize", "utcHoursFromMidnight"}
            \* only the named attribute counts
            /\ y.a = "domain" => f = Sees(y, [m EXCEPT !.ua = "q", !.enct = "q", !.sns = "q", !.dns = "q"])
            /\ y.a = "requestUseragent" => f = Sees(y, [m EXCEPT !.dom = "q", !.enct = "q", !.sns = "q"])
Title(y) == "attribute " \o y.a \o " " \o y.m \o " " \o y.v
History(y) == <<Load("r", WithCond(C3(y.a, y.m, y.v)))>>
              \o Flat1(3, LAMBDA n : <<PutMsg("m", M3(n), "raw"), Test("r", "m"), One("r", "m")>>)

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
