--------------------------------- MODULE MC_Time --------------------------------
(* Messages with every hour, minute and second that carries, zones, fractions and *)
(* broken time stamps; protocols and labels in their spellings.                 *)
EXTENDS Small

Two2(n) == IF n < 10 THEN "0" \o NatText(n) ELSE NatText(n)
Hours == IF Deep2 THEN 0..24 ELSE {0, 1, 9, 12, 13, 23, 24}
Mins == IF Deep2 THEN {0, 1, 9, 10, 30, 59, 60} ELSE {0, 1, 59, 60}
Tails == {"Z", "+00:00", "-07:30", "+14:00", ".5Z", ".123+01:00", ".000250Z", ".123456789Z", ".9999999999-01:00", ".000000001Z", ".9Z", "", "z", "+0100", ".Z"}
Cases == [h : Hours, m : Mins, s : Mins, z : Tails]
Stamp(y) == "2018-07-29T" \o Two2(y.h) \o ":" \o Two2(y.m) \o ":" \o Two2(y.s) \o y.z
In0 == [id |-> "m", sip |-> "10.0.0.1", dip |-> "", ssvc |-> "a", dsvc |-> "b", host |-> "h", proto |-> "http", path |-> "/x", port |-> "80", method |-> "GET",
        time |-> "", ua |-> "", sns |-> "", dns |-> "", scl |-> "", dcl |-> "", enct |-> "", dom |-> "", size |-> "1", encv |-> "", sl |-> "{a:b}", dl |-> ""]
Given(y) == [In0 EXCEPT !.time = Stamp(y),
                        !.proto = <<"http", "HTTP", "tcp", "TCP", "kafka", "">>[((y.h + y.m + y.s) % 6) + 1],
                        !.sl = <<"{a:b}", "{a:b,c:d}", "", "{a:b, c:d }", "{a : b}">>[((y.h + y.s) % 5) + 1]]
Law(y) == LET good == y.h < 24 /\ y.m < 60 /\ y.s < 60 /\ y.z \notin {"", "z", "+0100", ".Z"}
          IN /\ TimeOk(Stamp(y)) <=> good
             /\ good => LET n == WholeSeconds(Stamp(y)) IN /\ n < 86400 /\ Len(Decimals(Stamp(y))) = 9
                                                    /\ n \div 3600 = y.h /\ (n \div 60) % 60 = y.m /\ n % 60 = y.s
Title(y) == "message at " \o Stamp(y)
History(y) == <<[op |-> "msgload", a |-> <<Given(y)>>, via |-> "text"], [op |-> "msgload", a |-> <<[Given(y) EXCEPT !.id = "n", !.time = "2018-07-29T01:02:03Z"], Given(y)>>, via |-> "text"]>>

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
