--------------------------------- MODULE Pattern ---------------------------------
(* Names in rules: comma separated lists of anchored wildcard patterns.           *)
EXTENDS Text

RECURSIVE WildAt(_, _, _, _)
WildAt(p, i, s, j) ==
    IF i > Len(p) THEN j > Len(s)
    ELSE CASE At(p, i) = "*" -> \E k \in j..(Len(s) + 1) : WildAt(p, i + 1, s, k)
           [] At(p, i) = "?" -> j <= Len(s) /\ WildAt(p, i + 1, s, j + 1)
           [] OTHER -> j <= Len(s) /\ At(s, j) = At(p, i) /\ WildAt(p, i + 1, s, j + 1)
Wild(p, s) == WildAt(p, 1, s, 1)

NameMatches(list, s) == LET items == Split(list, ",")
                        IN \E k \in 1..Len(items) : Wild(Trim(items[k]), s)
(* sender and receiver names: blanks anywhere in an item are ignored *)
ServiceMatches(list, s) == LET items == Split(list, ",")
                           IN \E k \in 1..Len(items) : Wild(Replace(items[k], " ", ""), s)

ReadMethods  == {"GET", "HEAD", "OPTIONS", "TRACE", "read", "READ"}
WriteMethods == {"POST", "PUT", "DELETE"}
OperationMatches(op, method) ==
    CASE op = "*" -> TRUE
      [] op \in {"read", "READ"}   -> method \in ReadMethods
      [] op \in {"write", "WRITE"} -> method \in WriteMethods
      [] OTHER -> NameMatches(op, method)
=================================================================================
