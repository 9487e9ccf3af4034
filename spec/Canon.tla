---------------------------------- MODULE Canon ----------------------------------
(* Normal form of rules: equal texts for rules that have to have equal            *)
(* fingerprints. Every component carries its length, so the text is unambiguous.  *)
EXTENDS Rule

Tok(s) == NatText(Len(s)) \o ":" \o s \o ";"
RECURSIVE LessFrom(_, _, _)
LessFrom(s, t, i) == IF i > Len(t) THEN FALSE
                     ELSE IF i > Len(s) THEN TRUE
                     ELSE IF At(s, i) = At(t, i) THEN LessFrom(s, t, i + 1)
                     ELSE Ord(At(s, i)) < Ord(At(t, i))
Less(s, t) == s # t /\ LessFrom(s, t, 1)
RECURSIVE Insert(_, _)
Insert(x, ss) == IF ss = <<>> THEN <<x>>
                 ELSE IF Less(ss[1], x) THEN <<ss[1]>> \o Insert(x, Tail(ss))
                 ELSE <<x>> \o ss
RECURSIVE Sorted(_)
Sorted(ss) == IF ss = <<>> THEN <<>> ELSE Insert(ss[1], Sorted(Tail(ss)))

RECURSIVE CanonTree(_)
CanonTree(n) ==
    CASE n.n = "none" -> "none"
      [] n.n = "cond" -> "cond(" \o Tok(n.a) \o Tok(n.m) \o Tok(n.v) \o ")"
      [] n.n \in {"and", "or"} ->
            IF Len(n.c) = 1 THEN CanonTree(n.c[1])
            ELSE n.n \o "(" \o Join(Sorted(TLCEval([i \in 1..Len(n.c) |-> CanonTree(n.c[i])])), "") \o ")"
      [] n.n = "not" -> "not(" \o CanonTree(n.c[1]) \o ")"
      [] OTHER -> n.n \o "(" \o Tok(n.a) \o Join(TLCEval([i \in 1..Len(n.r) |-> Tok(n.r[i].k) \o Tok(n.r[i].v)]), "")
                  \o CanonTree(n.c[1]) \o ")"
CanonHead(r) == Tok(Lower(r.dec)) \o Tok(Lower(r.st)) \o Tok(r.sn) \o Tok(Lower(r.rt)) \o Tok(r.rn)
                \o Tok(Lower(r.oper)) \o Tok(Lower(r.proto)) \o Tok(r.rest) \o Tok(r.resn)
SameConditions(r, q) == CanonTree(r.t) = CanonTree(q.t)
SameRule(r, q) == CanonHead(r) = CanonHead(q) /\ SameConditions(r, q)
=================================================================================
