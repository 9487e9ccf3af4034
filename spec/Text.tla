---------------------------------- MODULE Text ----------------------------------
(* Operations on text. TLC treats a string as a sequence of characters for Len,  *)
(* SubSeq and \o; everything below is built on those three and on Fast.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Fast

At(s, i)      == SubSeq(s, i, i)
Sub(s, i, j)  == IF j < i THEN "" ELSE SubSeq(s, i, j)
From(s, i)    == Sub(s, i, Len(s))
Upto(s, j)    == Sub(s, 1, j)
HasPrefix(s, p) == Len(s) >= Len(p) /\ Sub(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ Sub(s, Len(s) - Len(p) + 1, Len(s)) = p

RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                      ELSE IF Sub(s, i, i + Len(p) - 1) = p THEN i
                      ELSE IndexFrom(s, p, i + 1)
Index(s, p)    == IndexFrom(s, p, 1)      \* 0 when p does not occur in s
Contains(s, p) == Occurs(s, p)
Replace(s, p, q) == Exchange(s, p, q)

RECURSIVE Count(_, _)
Count(s, p) == LET i == Index(s, p)
               IN IF i = 0 THEN 0 ELSE 1 + Count(From(s, i + Len(p)), p)

RECURSIVE Split(_, _)
Split(s, p) == LET i == Index(s, p)
               IN IF i = 0 THEN <<s>>
                  ELSE <<Upto(s, i - 1)>> \o Split(From(s, i + Len(p)), p)

RECURSIVE Join(_, _)
Join(ss, p) == IF Len(ss) = 0 THEN ""
               ELSE IF Len(ss) = 1 THEN ss[1]
               ELSE ss[1] \o p \o Join(Tail(ss), p)

RECURSIVE TrimLeft(_)
TrimLeft(s)  == IF Len(s) > 0 /\ At(s, 1) = " " THEN TrimLeft(From(s, 2)) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF Len(s) > 0 /\ At(s, Len(s)) = " " THEN TrimRight(Upto(s, Len(s) - 1)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))

Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
Digits == "0123456789"
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN ""
            ELSE LET i == Index(Uppers, At(s, 1))
                 IN (IF i = 0 THEN At(s, 1) ELSE At(Lowers, i)) \o Lower(From(s, 2))
RECURSIVE Upper(_)
Upper(s) == IF s = "" THEN ""
            ELSE LET i == Index(Lowers, At(s, 1))
                 IN (IF i = 0 THEN At(s, 1) ELSE At(Uppers, i)) \o Upper(From(s, 2))
SameFold(a, b) == Lower(a) = Lower(b)

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord(c) == Index(Ascii, c)
IsDigit(c)  == Contains(Digits, c)
IsLetter(c) == Contains(Uppers, c) \/ Contains(Lowers, c)
IsWord(c)   == IsDigit(c) \/ IsLetter(c) \/ c = "_"
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(At(s, i))
DigitVal(c) == Index(Digits, c) - 1
RECURSIVE NatOf(_)      \* small decimal numbers (indices, octets)
NatOf(s) == IF s = "" THEN 0 ELSE 10 * NatOf(Upto(s, Len(s) - 1)) + DigitVal(At(s, Len(s)))

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN At(Digits, n + 1) ELSE NatText(n \div 10) \o At(Digits, (n % 10) + 1)

(* sequences *)
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Range(s) == {s[i] : i \in 1..Len(s)}
Occ(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in 1..Len(s) : Occ(s, s[i]) = Occ(t, s[i])
Filter(s, P(_)) == LET RECURSIVE F(_)
                       F(i) == IF i > Len(s) THEN <<>>
                               ELSE (IF P(s[i]) THEN <<s[i]>> ELSE <<>>) \o F(i + 1)
                   IN F(1)
Last(s) == s[Len(s)]
=================================================================================
