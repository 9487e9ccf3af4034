--------------------------------- MODULE Message ---------------------------------
(* What loading a message text derives from the given attributes.                 *)
EXTENDS Net, Sequences

ResourceType(proto) == CASE proto \in {"HTTP", "http"} -> "path"
                         [] proto \in {"TCP", "tcp"} -> "port"
                         [] OTHER -> ""

(* ------- RFC 3339 time stamps: 2018-07-29T14:30:00[.fraction](Z|+hh:mm) ------- *)
Two(s, i) == NatOf(Sub(s, i, i + 1))
DigitsAt(s, i, n) == i + n - 1 <= Len(s) /\ AllDigits(Sub(s, i, i + n - 1))
RECURSIVE RunOfDigits(_, _)
RunOfDigits(s, i) == IF i <= Len(s) /\ IsDigit(At(s, i)) THEN 1 + RunOfDigits(s, i + 1) ELSE 0
LeapYear(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, mo) == CASE mo \in {1, 3, 5, 7, 8, 10, 12} -> 31
                   [] mo \in {4, 6, 9, 11} -> 30
                   [] OTHER -> IF LeapYear(y) THEN 29 ELSE 28
ZoneOk(z) == \/ z = "Z"
             \/ /\ Len(z) = 6 /\ At(z, 1) \in {"+", "-"} /\ At(z, 4) = ":"
                /\ DigitsAt(z, 2, 2) /\ DigitsAt(z, 5, 2)
                /\ Two(z, 2) <= 24 /\ Two(z, 5) <= 60
FractionLen(s) == IF Len(s) >= 20 /\ At(s, 20) = "." THEN 1 + RunOfDigits(s, 21) ELSE 0
TimeOk(s) ==
    /\ Len(s) >= 20
    /\ DigitsAt(s, 1, 4) /\ At(s, 5) = "-" /\ DigitsAt(s, 6, 2) /\ At(s, 8) = "-" /\ DigitsAt(s, 9, 2)
    /\ At(s, 11) = "T"
    /\ DigitsAt(s, 12, 2) /\ At(s, 14) = ":" /\ DigitsAt(s, 15, 2) /\ At(s, 17) = ":" /\ DigitsAt(s, 18, 2)
    /\ Two(s, 6) \in 1..12 /\ Two(s, 9) \in 1..DaysIn(NatOf(Sub(s, 1, 4)), Two(s, 6))
    /\ Two(s, 12) <= 23 /\ Two(s, 15) <= 59 /\ Two(s, 18) <= 59
    /\ FractionLen(s) # 1
    /\ ZoneOk(From(s, 20 + FractionLen(s)))
WholeSeconds(s) == (Two(s, 12) * 60 + Two(s, 15)) * 60 + Two(s, 18)
Decimals(s) ==                            \* nine decimals, more are cut
    LET n == FractionLen(s)
    IN Upto((IF n = 0 THEN "" ELSE Sub(s, 21, 19 + n)) \o "000000000", 9)
Seconds(s) == NatText(WholeSeconds(s)) \o "." \o Decimals(s)     \* since midnight as written

(* --------------------------- labels "{a:b,c:d}" --------------------------- *)
LabelPairs(text) ==
    LET s == Replace(text, " ", "")
        inner == Sub(s, 2, Len(s) - 1)
        items == Split(inner, ",")
        wellFormed == /\ Len(s) >= 2 /\ At(s, 1) = "{" /\ At(s, Len(s)) = "}"
                      /\ \A i \in 1..Len(items) : Count(items[i], ":") = 1
    IN IF ~wellFormed THEN <<>>
       ELSE TLCEval([i \in 1..Len(items) |-> LET f == Split(items[i], ":") IN [k |-> f[1], v |-> f[2]]])

(* address as its groups; <<>> when the text is no address *)
Address(s) == Ip(s).g
=================================================================================
