--------------------------------- MODULE MC_Net ---------------------------------
(* Every prefix length of an IPv4 and (at group borders) an IPv6 range; the addresses *)
(* are those that differ from the range's in one bit, and some that are none.   *)
EXTENDS Small

Base4 == <<10, 77, 170, 85>>
Base6 == <<8193, 3512, 0, 43690, 21845, 1, 65535, 2>>
Lens6 == IF Deep2 THEN 0..128 ELSE {0, 1, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 79, 96, 97, 112, 113, 127, 128}
Flips6 == IF Deep2 THEN 1..128 ELSE {1, 2, 15, 16, 17, 18, 32, 33, 48, 49, 63, 64, 65, 66, 79, 80, 96, 97, 98, 112, 113, 114, 127, 128}
Cases == [v : {4}, n : 0..32, side : {"s", "r"}, second : BOOLEAN]
         \cup [v : {6}, n : Lens6, side : {"s", "r"}, second : BOOLEAN]
\* flip bit k (1 is the most significant) of a sequence of groups of w bits
FlipBit(g, w, k) == LET i == ((k - 1) \div w) + 1
                        b == Pow2(w - 1 - ((k - 1) % w))
                    IN [g EXCEPT ![i] = IF (g[i] \div b) % 2 = 1 THEN g[i] - b ELSE g[i] + b]
RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN At(HexDigits, n + 1) ELSE HexText(n \div 16) \o At(HexDigits, (n % 16) + 1)
Text4(g) == Join(Seq1(4, LAMBDA i : NatText(g[i])), ".")
Text6(g) == Join(Seq1(8, LAMBDA i : HexText(g[i])), ":")
BaseText(y) == IF y.v = 4 THEN Text4(Base4) ELSE Text6(Base6)
Flips(y) == Listed(IF y.v = 4 THEN 1..32 ELSE Flips6)
Addr(y, k) == IF y.v = 4 THEN Text4(FlipBit(Base4, 8, k)) ELSE Text6(FlipBit(Base6, 16, k))
Range1(y) == BaseText(y) \o "/" \o NatText(y.n)
Names(y) == IF y.second THEN "192.168.255.1," \o Range1(y) ELSE Range1(y)
Others(y) == <<BaseText(y), "", "host", IF y.v = 4 THEN Text6(Base6) ELSE Text4(Base4), "300.1.1.1", "192.168.255.1", "192.168.255.10">>
Subjects(y) == LET fl == Flips(y) IN Seq1(Len(fl), LAMBDA i : Addr(y, fl[i])) \o Others(y)
Law(y) == LET fl == Flips(y) IN
          /\ SubnetOk(Names(y))
          /\ SubnetMatches(Names(y), BaseText(y))
          /\ \A i \in 1..Len(fl) :        \* flipping a bit leaves the range iff the bit is in the prefix
                SubnetMatches(Names(y), Addr(y, fl[i])) <=> fl[i] > y.n
          /\ SubnetMatches(Names(y), "192.168.255.1") <=> (y.second \/ (y.v = 4 /\ y.n = 0))
          /\ ~SubnetMatches(Names(y), "") /\ ~SubnetMatches(Names(y), "host")
Title(y) == "net " \o y.side \o " " \o Names(y)
NetRule(y) == IF y.side = "s" THEN [Rule0 EXCEPT !.st = "subnet", !.sn = Names(y)]
              ELSE [Rule0 EXCEPT !.rt = "subnet", !.rn = Names(y)]
NetMsg(y, s) == IF y.side = "s" THEN [Msg0 EXCEPT !.sip = s] ELSE [Msg0 EXCEPT !.dip = s]
History(y) == LET s == TLCEval(Subjects(y))
              IN <<Load("r", NetRule(y)), [op |-> "val", h |-> "r"]>>
                 \o Flat1(Len(s), LAMBDA i : <<PutMsg("m", NetMsg(y, s[i]), "raw"), One("r", "m")>>)

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
