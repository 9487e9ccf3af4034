-------------------------------- MODULE MC_Parts --------------------------------
(* Every combination of matching and failing parts of a rule, for each kind of  *)
(* protocol and with conditions absent, true or false.                          *)
EXTENDS Small

DecWords == {"allow", "alert", "block", "ALLOW", "ALERT", "BLOCK", "Allow", "Alert", "Block"}
NoWords == {"maybe", "aLLow", "blocK", "blocked", ""}
Parts == [s : BOOLEAN, r : BOOLEAN, o : BOOLEAN, n : BOOLEAN, k : BOOLEAN, p : {"http", "tcp", "*"},
          c : {"none", "true", "false"}, d : DecWords \cup NoWords,
          t : {"workload", "subnet", "hostname"}]
Cases == {y \in Parts : \/ y.d = "block" \/ Deep2
                        \/ y.s /\ y.r /\ y.d \in {"allow", "alert", "maybe"}
                        \/ y.s /\ y.r /\ y.o /\ y.n /\ y.k}
PartRule(y) ==
    [Rule0 EXCEPT !.st = IF y.t = "hostname" THEN "workload" ELSE y.t,
        !.sn = IF y.t = "subnet" THEN (IF y.s THEN "10.0.0.0/24" ELSE "10.0.1.0/24") ELSE (IF y.s THEN "svc.?" ELSE "svc"),
        !.rt = y.t,
        !.rn = CASE y.t = "subnet" -> IF y.r THEN "10.0.0.2" ELSE "10.0.0.1"
                 [] y.t = "hostname" -> IF y.r THEN "h.*" ELSE "svc.b"
                 [] OTHER -> IF y.r THEN "x,svc.b" ELSE "h.*",
        !.oper = IF y.o THEN "read" ELSE "write",
        !.proto = y.p,
        !.rest = IF y.p = "http" THEN (IF y.k THEN "path" ELSE "port") ELSE "",
        !.resn = IF y.p = "tcp" THEN (IF y.n THEN "8080" ELSE "/x") ELSE (IF y.n THEN "/*" ELSE "8080"),
        !.dec = y.d,
        !.cond = CASE y.c = "none" -> Absent [] y.c = "true" -> True3 [] OTHER -> False3]
AllMatch(y) == /\ y.s /\ y.r /\ y.o /\ y.c # "false" /\ y.d \in DecWords
               /\ y.p = "*" \/ y.n
               /\ y.p = "http" => y.k
Law(y) == (Gives(PartRule(y), Msg0).d # DEFAULT) = AllMatch(y)
Title(y) == "parts " \o ToString(<<y.s, y.r, y.o, y.n, y.k>>) \o y.p \o " " \o y.c \o " " \o y.d \o " " \o y.t
History(y) == <<Load("r", PartRule(y)), PutMsg("m", Msg0, "raw"), One("r", "m"), Check(<<"r">>, "m")>>

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
