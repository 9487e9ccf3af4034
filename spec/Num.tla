----------------------------------- MODULE Num -----------------------------------
(* Numbers as written in rules and documents: a decimal literal with at most one *)
(* unit suffix. Values are kept exactly (integers below TLC's range do not suffice *)
(* for 5Ei) as sign * m * 10^e * 1024^b with m a little-endian base 10^4 numeral. *)
EXTENDS Text, Integers

Base == 10000
RECURSIVE Carry(_, _, _)
Carry(n, k, c) ==                      \* n * k + c for a small k, c
    IF n = <<>> THEN IF c = 0 THEN <<>> ELSE <<c % Base>> \o Carry(<<>>, k, c \div Base)
    ELSE LET x == Head(n) * k + c IN <<x % Base>> \o Carry(Tail(n), k, x \div Base)
RECURSIVE Strip(_)
Strip(n) == IF n # <<>> /\ n[Len(n)] = 0 THEN Strip(SubSeq(n, 1, Len(n) - 1)) ELSE n
MulSmall(n, k) == Strip(Carry(n, k, 0))
RECURSIVE MulPow(_, _, _)
MulPow(n, k, p) == IF p = 0 \/ n = <<>> THEN n ELSE MulPow(MulSmall(n, k), k, p - 1)

RECURSIVE BigOf(_)
BigOf(s) == IF s = "" THEN <<>>
            ELSE Strip(Carry(BigOf(Upto(s, Len(s) - 1)), 10, DigitVal(At(s, Len(s)))))
(* -1, 0, 1 *)
RECURSIVE CmpLimbs(_, _, _)
CmpLimbs(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1 ELSE CmpLimbs(a, b, i - 1)
CmpNat(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpLimbs(a, b, Len(a))

NotNum == [ok |-> FALSE, neg |-> FALSE, m |-> <<>>, e |-> 0, b |-> 0]

(* decimal literal: [+-] digits [. digits] [(e|E) [+-] digits] *)
RECURSIVE DigitRun(_, _)
DigitRun(s, i) == IF i <= Len(s) /\ IsDigit(At(s, i)) THEN DigitRun(s, i + 1) ELSE i
Literal(s) ==
    LET n    == Len(s)
        sg   == n > 0 /\ At(s, 1) \in {"+", "-"}
        i0   == IF sg THEN 2 ELSE 1
        i1   == DigitRun(s, i0)
        dot  == i1 <= n /\ At(s, i1) = "."
        i2   == IF dot THEN i1 + 1 ELSE i1
        i3   == DigitRun(s, i2)
        int  == Sub(s, i0, i1 - 1)
        frac == IF dot THEN Sub(s, i2, i3 - 1) ELSE ""
        exp  == i3 <= n /\ At(s, i3) \in {"e", "E"}
        esg  == exp /\ i3 + 1 <= n /\ At(s, i3 + 1) \in {"+", "-"}
        i4   == IF exp THEN (IF esg THEN i3 + 2 ELSE i3 + 1) ELSE i3
        i5   == IF exp THEN DigitRun(s, i4) ELSE i3
        ev   == IF exp THEN NatOf(Sub(s, i4, i5 - 1)) ELSE 0
    IN IF n = 0 \/ int \o frac = "" \/ (exp /\ i5 = i4) \/ i5 <= n THEN NotNum
       ELSE [ok  |-> TRUE,
             neg |-> sg /\ At(s, 1) = "-",
             m   |-> BigOf(int \o frac),
             e   |-> (IF esg /\ At(s, i3 + 1) = "-" THEN 0 - ev ELSE ev) - Len(frac),
             b   |-> 0]

(* suffix, power of ten, power of 1024; the first suffix that fits is the unit *)
Units == << <<"%", -2, 0>>,
            <<"e3", 3, 0>>, <<"e6", 6, 0>>, <<"e9", 9, 0>>, <<"e12", 12, 0>>, <<"e15", 15, 0>>, <<"e18", 18, 0>>,
            <<"Ki", 0, 1>>, <<"Mi", 0, 2>>, <<"Gi", 0, 3>>, <<"Ti", 0, 4>>, <<"Pi", 0, 5>>, <<"Ei", 0, 6>>,
            <<"K", 3, 0>>, <<"M", 6, 0>>, <<"G", 9, 0>>, <<"T", 12, 0>>, <<"P", 15, 0>>, <<"E", 18, 0>>,
            <<"m", -3, 0>> >>
RECURSIVE UnitOf(_, _)
UnitOf(s, i) == IF i > Len(Units) THEN 0
                ELSE IF HasSuffix(s, Units[i][1]) /\ Count(s, Units[i][1]) = 1 THEN i
                ELSE UnitOf(s, i + 1)
Number(s) ==
    LET u == UnitOf(s, 1)
    IN IF u = 0 THEN Literal(s)
       ELSE LET x == Literal(Upto(s, Len(s) - Len(Units[u][1])))
            IN IF ~x.ok THEN NotNum ELSE [x EXCEPT !.e = @ + Units[u][2], !.b = @ + Units[u][3]]
IsNumber(s) == Number(s).ok

Min(a, b) == IF a < b THEN a ELSE b
(* order of two numbers: -1, 0, 1 *)
CmpMag(x, y) ==
    LET e == Min(x.e, y.e)
        b == Min(x.b, y.b)
    IN CmpNat(MulPow(MulPow(x.m, 10, x.e - e), 1024, x.b - b),
              MulPow(MulPow(y.m, 10, y.e - e), 1024, y.b - b))
Cmp(x, y) ==
    IF x.m = <<>> /\ y.m = <<>> THEN 0
    ELSE IF x.neg /\ x.m # <<>> THEN (IF y.neg /\ y.m # <<>> THEN CmpMag(y, x) ELSE -1)
    ELSE IF y.neg /\ y.m # <<>> THEN 1
    ELSE CmpMag(x, y)

OrderMethods == {"GE", "GT", "LE", "LT"}
EqMethods    == {"EQ", "NEQ", "NE"}
Holds(c, m) == CASE m = "EQ" -> c = 0
                 [] m \in {"NEQ", "NE"} -> c # 0
                 [] m = "GE" -> c >= 0
                 [] m = "GT" -> c > 0
                 [] m = "LE" -> c <= 0
                 [] m = "LT" -> c < 0
                 [] OTHER -> FALSE
=================================================================================
