---------------------------------- MODULE Regex ----------------------------------
(* The usual regular expressions: literals, ., [..], [^..], escapes \d \w \s and  *)
(* punctuation, groups, |, * + ? {n} {n,} {n,m}, ^ and $. Parse gives a tree or    *)
(* reports that the text is not a regular expression; Ends gives the set of       *)
(* positions at which a match starting at i can end.                              *)
EXTENDS Text

Rx(t, c, k)  == [t |-> t, c |-> c, k |-> k]      \* t tag, c set of characters, k children
RxErr        == Rx("err", {}, <<>>)
AnyChar      == {At(Ascii, i) : i \in 1..Len(Ascii)}
ClassOf(c)   == CASE c = "d" -> {At(Digits, i) : i \in 1..10}
                  [] c = "w" -> {x \in AnyChar : IsWord(x)}
                  [] c = "s" -> {" "}
                  [] c = "D" -> {x \in AnyChar : ~IsDigit(x)}
                  [] c = "W" -> {x \in AnyChar : ~IsWord(x)}
                  [] OTHER -> {c}
EscapeOk(c)  == c \in {"d", "w", "s", "D", "W"} \/ ~IsWord(c)

Got(n, i) == [n |-> n, i |-> i]
(* members of a character class from position i up to the closing bracket *)
RECURSIVE ClassItems(_, _, _)
ClassItems(p, i, acc) ==
    IF i > Len(p) THEN Got(RxErr, i)
    ELSE IF At(p, i) = "]" THEN Got(Rx("set", acc, <<>>), i + 1)
    ELSE IF At(p, i) = "\\" THEN
            IF i = Len(p) \/ ~EscapeOk(At(p, i + 1)) THEN Got(RxErr, i)
            ELSE ClassItems(p, i + 2, acc \cup ClassOf(At(p, i + 1)))
    ELSE IF i + 2 <= Len(p) /\ At(p, i + 1) = "-" /\ At(p, i + 2) # "]" THEN
            IF Ord(At(p, i)) > Ord(At(p, i + 2)) THEN Got(RxErr, i)
            ELSE ClassItems(p, i + 3, acc \cup {At(Ascii, j) : j \in Ord(At(p, i))..Ord(At(p, i + 2))})
    ELSE ClassItems(p, i + 1, acc \cup {At(p, i)})

(* repetition at position i: [i] next position (0: none), [ok], [lo], [hi] *)
NoLimit == 9999
NoQuant == [i |-> 0, ok |-> TRUE, lo |-> 0, hi |-> 0]
CountOk(w) == AllDigits(w) /\ (Len(w) = 1 \/ At(w, 1) # "0")
Braces(p, i) ==
    LET e == IndexFrom(p, "}", i)
        w == Sub(p, i + 1, e - 1)
        c == Index(w, ",")
        a == IF c = 0 THEN w ELSE Upto(w, c - 1)
        b == From(w, c + 1)
        lo == IF Len(a) > 4 THEN 1001 ELSE NatOf(a)
        hi == IF c = 0 THEN lo ELSE IF b = "" THEN NoLimit ELSE IF Len(b) > 4 THEN 1001 ELSE NatOf(b)
    IN IF e = 0 THEN NoQuant
       ELSE IF ~CountOk(a) THEN NoQuant
       ELSE IF c # 0 /\ b # "" /\ ~CountOk(b) THEN NoQuant
       ELSE [i |-> e + 1, ok |-> lo <= 1000 /\ (hi = NoLimit \/ (hi <= 1000 /\ lo <= hi)), lo |-> lo, hi |-> hi]
QuantAt(p, i) ==
    IF i > Len(p) THEN NoQuant
    ELSE CASE At(p, i) = "*" -> [i |-> i + 1, ok |-> TRUE, lo |-> 0, hi |-> NoLimit]
           [] At(p, i) = "+" -> [i |-> i + 1, ok |-> TRUE, lo |-> 1, hi |-> NoLimit]
           [] At(p, i) = "?" -> [i |-> i + 1, ok |-> TRUE, lo |-> 0, hi |-> 1]
           [] At(p, i) = "{" -> Braces(p, i)
           [] OTHER -> NoQuant

RECURSIVE ParseAlt(_, _), ParseSeq(_, _, _), ParseRep(_, _), ParseAtom(_, _)
ParseAtom(p, i) ==
    LET c == At(p, i)
    IN CASE c = "(" ->
              LET r == ParseAlt(p, IF HasPrefix(From(p, i), "(?:") THEN i + 3 ELSE i + 1)
              IN IF r.n.t = "err" \/ r.i > Len(p) THEN Got(RxErr, i)
                 ELSE IF At(p, r.i) = ")" THEN Got(r.n, r.i + 1) ELSE Got(RxErr, i)
         [] c = "[" ->
              LET neg == i < Len(p) /\ At(p, i + 1) = "^"
                  j   == IF neg THEN i + 2 ELSE i + 1
                  lit == j <= Len(p) /\ At(p, j) = "]"        \* a leading ] is a member
                  r   == IF lit THEN ClassItems(p, j + 1, {"]"}) ELSE ClassItems(p, j, {})
              IN IF r.n.t = "err" THEN r
                 ELSE IF neg THEN Got(Rx("set", AnyChar \ r.n.c, <<>>), r.i) ELSE r
         [] c = "." -> Got(Rx("set", AnyChar, <<>>), i + 1)
         [] c = "^" -> Got(Rx("bol", {}, <<>>), i + 1)
         [] c = "$" -> Got(Rx("eol", {}, <<>>), i + 1)
         [] c = "\\" -> IF i = Len(p) \/ ~EscapeOk(At(p, i + 1)) THEN Got(RxErr, i)
                        ELSE Got(Rx("set", ClassOf(At(p, i + 1)), <<>>), i + 2)
         [] QuantAt(p, i).i # 0 -> Got(RxErr, i)
         [] OTHER -> Got(Rx("set", {c}, <<>>), i + 1)
ParseRep(p, i) ==
    LET a == ParseAtom(p, i)
        q == QuantAt(p, a.i)
        j == IF q.i <= Len(p) /\ At(p, q.i) = "?" THEN q.i + 1 ELSE q.i       \* a*? selects another match only
    IN IF a.n.t = "err" THEN a
       ELSE IF q.i = 0 THEN a
       ELSE IF ~q.ok \/ QuantAt(p, j).i # 0 THEN Got(RxErr, i)               \* a** is not allowed
       ELSE Got(Rx("rep", <<q.lo, q.hi>>, <<a.n>>), j)
ParseSeq(p, i, acc) ==
    IF i > Len(p) \/ At(p, i) \in {"|", ")"} THEN Got(Rx("seq", {}, acc), i)
    ELSE LET r == ParseRep(p, i) IN IF r.n.t = "err" THEN r ELSE ParseSeq(p, r.i, Append(acc, r.n))
ParseAlt(p, i) ==
    LET l == ParseSeq(p, i, <<>>)
    IN IF l.n.t = "err" \/ l.i > Len(p) \/ At(p, l.i) # "|" THEN l
       ELSE LET r == ParseAlt(p, l.i + 1)
            IN IF r.n.t = "err" THEN r ELSE Got(Rx("alt", {}, <<l.n, r.n>>), r.i)
ParseRegex(p) == LET r == ParseAlt(p, 1)
                 IN IF r.n.t = "err" \/ r.i <= Len(p) THEN RxErr ELSE r.n
ValidRegex(p) == ParseRegex(p).t # "err"

RECURSIVE Ends(_, _, _), EndsSeq(_, _, _, _), Closure(_, _, _, _), Times(_, _, _, _), UpTo(_, _, _, _)
Ends(n, s, i) ==
    CASE n.t = "set" -> IF i <= Len(s) /\ At(s, i) \in n.c THEN {i + 1} ELSE {}
      [] n.t = "bol" -> IF i = 1 THEN {i} ELSE {}
      [] n.t = "eol" -> IF i = Len(s) + 1 THEN {i} ELSE {}
      [] n.t = "seq" -> EndsSeq(n.k, 1, s, {i})
      [] n.t = "alt" -> Ends(n.k[1], s, i) \cup Ends(n.k[2], s, i)
      [] n.t = "rep" ->
            LET m == Times(n.k[1], s, {i}, n.c[1])
            IN IF n.c[2] = NoLimit THEN Closure(n.k[1], s, m, m) ELSE UpTo(n.k[1], s, m, n.c[2] - n.c[1])
Step1(n, s, is) == UNION {Ends(n, s, i) : i \in is}
Times(n, s, is, k) == IF k = 0 \/ is = {} THEN is ELSE Times(n, s, Step1(n, s, is), k - 1)
UpTo(n, s, is, k) == IF k = 0 THEN is ELSE is \cup UpTo(n, s, Step1(n, s, is), k - 1)
EndsSeq(k, j, s, is) == IF j > Len(k) \/ is = {} THEN is
                        ELSE EndsSeq(k, j + 1, s, UNION {Ends(k[j], s, i) : i \in is})
Closure(n, s, seen, new) ==
    LET more == (UNION {Ends(n, s, i) : i \in new}) \ seen
    IN IF more = {} THEN seen ELSE Closure(n, s, seen \cup more, more)

Search(p, s) == LET n == ParseRegex(p)
                IN n.t # "err" /\ \E i \in 1..(Len(s) + 1) : Ends(n, s, i) # {}
=================================================================================
