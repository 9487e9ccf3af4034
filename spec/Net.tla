----------------------------------- MODULE Net -----------------------------------
(* IPv4 and IPv6 addresses and CIDR ranges as text.                               *)
EXTENDS Text

NoIp == [ok |-> FALSE, w |-> 0, g |-> <<>>]       \* w: bits per group, g: groups
OctetOk(o) == AllDigits(o) /\ Len(o) <= 3 /\ (Len(o) = 1 \/ At(o, 1) # "0") /\ NatOf(o) <= 255
Ip4(s) == LET f == Split(s, ".")
          IN IF Len(f) = 4 /\ \A i \in 1..4 : OctetOk(f[i])
             THEN [ok |-> TRUE, w |-> 8, g |-> TLCEval([i \in 1..4 |-> NatOf(f[i])])]
             ELSE NoIp

HexDigits == "0123456789abcdef"
IsHex(c) == Contains(HexDigits, Lower(c))
GroupOk(x) == Len(x) \in 1..4 /\ \A i \in 1..Len(x) : IsHex(At(x, i))
RECURSIVE HexOf(_)
HexOf(x) == IF x = "" THEN 0 ELSE 16 * HexOf(Upto(x, Len(x) - 1)) + Index(HexDigits, Lower(At(x, Len(x)))) - 1
Groups(s) == IF s = "" THEN <<>> ELSE Split(s, ":")
Ip6(s) ==
    LET i  == Index(s, "::")
        l  == IF i = 0 THEN Groups(s) ELSE Groups(Upto(s, i - 1))
        r  == IF i = 0 THEN <<>> ELSE Groups(From(s, i + 2))
        n  == Len(l) + Len(r)
        ok == /\ Contains(s, ":")
              /\ \A k \in 1..Len(l) : GroupOk(l[k])
              /\ \A k \in 1..Len(r) : GroupOk(r[k])
              /\ IF i = 0 THEN n = 8 ELSE n <= 7
    IN IF ~ok THEN NoIp
       ELSE [ok |-> TRUE, w |-> 16,
             g |-> TLCEval([k \in 1..8 |-> IF k <= Len(l) THEN HexOf(l[k])
                                   ELSE IF k > 8 - Len(r) THEN HexOf(r[k - 8 + Len(r)])
                                   ELSE 0])]
Ip(s) == IF Ip4(s).ok THEN Ip4(s) ELSE Ip6(s)

NoNet == [ok |-> FALSE, ip |-> NoIp, n |-> 0]
Cidr(s) == LET i  == Index(s, "/")
               a  == Ip(Upto(s, i - 1))
               n  == From(s, i + 1)
           IN IF i = 0 \/ ~a.ok \/ ~AllDigits(n) \/ Len(n) > 3 THEN NoNet
              ELSE IF NatOf(n) > Len(a.g) * a.w THEN NoNet
              ELSE [ok |-> TRUE, ip |-> a, n |-> NatOf(n)]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Within(a, c) ==                                   \* address a in range c
    /\ a.ok /\ c.ok /\ a.w = c.ip.w
    /\ \A k \in 1..Len(a.g) :
          LET bits == c.n - (k - 1) * a.w        \* significant bits of group k
          IN IF bits >= a.w THEN a.g[k] = c.ip.g[k]
             ELSE IF bits <= 0 THEN TRUE
             ELSE a.g[k] \div Pow2(a.w - bits) = c.ip.g[k] \div Pow2(a.w - bits)

SubnetItemOk(x) == x = "*" \/ Ip(x).ok \/ Cidr(x).ok
SubnetItem(x, ip) == CASE x = "*" -> Ip4(ip).ok
                       [] Cidr(x).ok -> Within(Ip(ip), Cidr(x))
                       [] OTHER -> x = ip
SubnetOk(list) == LET f == Split(list, ",") IN \A k \in 1..Len(f) : SubnetItemOk(f[k])
SubnetMatches(list, ip) == LET f == Split(list, ",") IN \E k \in 1..Len(f) : SubnetItem(f[k], ip)
=================================================================================
