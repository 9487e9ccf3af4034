----------------------------------- MODULE Tree -----------------------------------
(* The meaning of a condition tree: truth value and returned values.              *)
(* A set of returned values is its canonical text "{name:json,name:json}".        *)
EXTENDS Cond

Res(f, x) == [f |-> f, x |-> x]

(* value of a return path; "$*" is the whole (relative) document *)
ReturnTarget(p, doc, rel) ==
    LET q == PathTail(p)
    IN CASE q = "$RELATIVE*" \/ q = "$RELATIVE" -> rel
         [] HasPrefix(q, "$RELATIVE") -> Lookup(rel, From(q, Len("$RELATIVE") + 1))
         [] q = "$*" -> doc
         [] OTHER -> Lookup(doc, From(q, 2))
ReturnSet(r, doc, rel) ==
    LET val(i) == ReturnTarget(r[i].v, doc, rel)
        there == Filter(TLCEval([i \in 1..Len(r) |-> i]), LAMBDA i : val(i).t \notin {"z", "u"})
    IN "{" \o Join(TLCEval([j \in 1..Len(there) |-> r[there[j]].k \o ":" \o Json(val(there[j]))]), ",") \o "}"

(* collections named by a parent attribute (a comma separated list of paths) *)
ParentPaths(a) == LET ps == Split(a, ",")
                  IN TLCEval([i \in 1..Len(ps) |-> IF IsPathAttr(ps[i]) THEN PathTail(ps[i]) ELSE ps[i]])
IsRelativePath(p) == HasPrefix(p, "$RELATIVE")
ParentHere(a, doc, rel) ==          \* is there a document (or element) to look into
    LET ps == ParentPaths(a) IN \A i \in 1..Len(ps) : IsThere(IF IsRelativePath(ps[i]) THEN rel ELSE doc)
ParentElements(a, doc, rel) ==
    LET ps == ParentPaths(a)
        one(p) == CASE p = "$RELATIVE*" -> IF rel.t = "o" THEN Elements(rel) ELSE <<>>
                    [] IsRelativePath(p) -> Named(rel, From(p, Len("$RELATIVE") + 1))
                    [] HasPrefix(p, "$") -> Named(doc, From(p, 2))
                    [] OTHER -> Named(doc, p)
    IN Flat(TLCEval([i \in 1..Len(ps) |-> one(ps[i])]))

(* whether a tree holds; the values it returns play no part in that *)
RECURSIVE Fulfils(_, _, _)
Fulfils(n, m, rel) ==
    CASE n.n = "cond" -> CondHolds(n, m, rel)
      [] n.n = "and" -> \A i \in 1..Len(n.c) : Fulfils(n.c[i], m, rel)
      [] n.n = "or" -> \E i \in 1..Len(n.c) : Fulfils(n.c[i], m, rel)
      [] n.n = "not" -> ~Fulfils(n.c[1], m, rel)
      [] n.n \in {"any", "all"} ->
            LET es == TLCEval(ParentElements(n.a, m.doc, rel))
            IN /\ ParentHere(n.a, m.doc, rel)
               /\ IF n.n = "all" THEN \A i \in 1..Len(es) : Fulfils(n.c[1], m, es[i])
                  ELSE \E i \in 1..Len(es) : Fulfils(n.c[1], m, es[i])
      [] OTHER -> FALSE

RECURSIVE Eval(_, _, _)
EvalAll(c, m, rel) == TLCEval([i \in 1..Len(c) |-> Eval(c[i], m, rel)])
Eval(n, m, rel) ==
    CASE n.n = "cond" ->
            LET f == CondHolds(n, m, rel)
            IN Res(f, IF f /\ IsPathAttr(n.a) /\ n.r # <<>> THEN <<ReturnSet(n.r, m.doc, rel)>> ELSE <<>>)
      [] n.n = "and" ->
            LET rs == EvalAll(n.c, m, rel)
                f  == \A i \in 1..Len(rs) : rs[i].f
                xs == Filter(rs, LAMBDA r : r.x # <<>>)
            IN Res(f, IF f /\ xs # <<>> THEN Last(xs).x ELSE <<>>)
      [] n.n = "or" ->
            LET rs == EvalAll(n.c, m, rel)
            IN Res(\E i \in 1..Len(rs) : rs[i].f,
                   Flat(TLCEval([i \in 1..Len(rs) |-> IF rs[i].f THEN rs[i].x ELSE <<>>])))
      [] n.n = "not" -> Res(~Fulfils(n.c[1], m, rel), <<>>)
      [] n.n \in {"any", "all"} ->
            IF n.n = "all" \/ n.r = <<>> THEN Res(Fulfils(n, m, rel), <<>>)
            ELSE IF ~ParentHere(n.a, m.doc, rel) THEN Res(FALSE, <<>>)
            ELSE LET es  == TLCEval(ParentElements(n.a, m.doc, rel))
                     hit == TLCEval(Filter(es, LAMBDA e : Fulfils(n.c[1], m, e)))
                 IN Res(hit # <<>>, TLCEval([i \in 1..Len(hit) |-> ReturnSet(n.r, m.doc, hit[i])]))
      [] OTHER -> Res(FALSE, <<>>)

(* returned values of a quantifier over an object come in no particular order *)
RECURSIVE Unordered(_, _)
Unordered(n, doc) ==
    \/ n.n = "any" /\ n.r # <<>> /\ LET ps == ParentPaths(n.a)
                                   IN \E i \in 1..Len(ps) : NoOrder(doc, IF HasPrefix(ps[i], "$") THEN From(ps[i], 2) ELSE ps[i])
    \/ n.n \in {"and", "or"} /\ \E i \in 1..Len(n.c) : Unordered(n.c[i], doc)
=================================================================================
