---------------------------------- MODULE Mongo ----------------------------------
(* Which condition trees can be translated to a database query, and what a query  *)
(* selects. Queries and documents are tagged values (module Doc).                 *)
EXTENDS Rule

(* ------------------------- meaning of a query ------------------------- *)
(* values a dotted field name reaches; arrays on the way are looked through *)
RECURSIVE Reach(_, _)
Reach(x, fs) ==
    IF fs = <<>> THEN <<x>>
    ELSE CASE x.t = "o" -> LET y == Field(x, fs[1]) IN IF IsThere(y) THEN Reach(y, Tail(fs)) ELSE <<>>
           [] x.t = "a" ->
                (IF AllDigits(fs[1]) /\ IsThere(Item(x, NatOf(fs[1]))) THEN Reach(Item(x, NatOf(fs[1])), Tail(fs)) ELSE <<>>)
                \o Flat(TLCEval([i \in 1..Len(x.v) |-> IF x.v[i].t = "o" THEN Reach(x.v[i], fs) ELSE <<>>]))
           [] OTHER -> <<>>
FieldValues(x, name) == Reach(x, Split(name, "."))
(* a value or one of its items *)
Candidates(vs) == vs \o Flat(TLCEval([i \in 1..Len(vs) |-> IF vs[i].t = "a" THEN vs[i].v ELSE <<>>]))
Some(s, P(_)) == \E i \in 1..Len(s) : P(s[i])
SameValue(x, y) == /\ x.t = y.t
                   /\ CASE x.t = "n" -> Cmp(Number(x.v), Number(y.v)) = 0
                        [] x.t \in {"s", "b"} -> x.v = y.v
                        [] OTHER -> Json(x) = Json(y)
NumberTest(x, y, m) == x.t = "n" /\ y.t = "n" /\ Holds(Cmp(Number(x.v), Number(y.v)), m)

RECURSIVE Selects(_, _)
RECURSIVE FieldTest(_, _, _)
FieldTest(vs, op, arg) ==
    CASE op = "$eq" -> Some(Candidates(vs), LAMBDA x : SameValue(x, arg))
      [] op = "$ne" -> ~Some(Candidates(vs), LAMBDA x : SameValue(x, arg))
      [] op = "$gt" -> Some(Candidates(vs), LAMBDA x : NumberTest(x, arg, "GT"))
      [] op = "$gte" -> Some(Candidates(vs), LAMBDA x : NumberTest(x, arg, "GE"))
      [] op = "$lt" -> Some(Candidates(vs), LAMBDA x : NumberTest(x, arg, "LT"))
      [] op = "$lte" -> Some(Candidates(vs), LAMBDA x : NumberTest(x, arg, "LE"))
      [] op = "$exists" -> (arg.v = "true") = (vs # <<>>)
      [] op = "$regex" -> Some(Candidates(vs), LAMBDA x : x.t = "s" /\ Search(arg.v, x.v))
      [] op = "$not" -> ~\A i \in 1..Len(arg.v) : FieldTest(vs, arg.v[i].k, arg.v[i].v)
      [] op = "$elemMatch" -> Some(vs, LAMBDA x : x.t = "a" /\ Some(x.v, LAMBDA e : e.t = "o" /\ Selects(arg, e)))
      [] OTHER -> Assert(FALSE, "unknown query operator " \o op)
Selects(q, x) ==
    \A i \in 1..Len(q.v) :
        LET k == q.v[i].k
            a == q.v[i].v
        IN CASE k = "$and" -> \A j \in 1..Len(a.v) : Selects(a.v[j], x)
             [] k = "$or" -> \E j \in 1..Len(a.v) : Selects(a.v[j], x)
             [] k = "$nor" -> ~\E j \in 1..Len(a.v) : Selects(a.v[j], x)
             [] OTHER -> LET vs == FieldValues(x, k)
                         IN \A j \in 1..Len(a.v) : FieldTest(vs, a.v[j].k, a.v[j].v)

(* pipeline: steps adding fields with the key-value pairs of an object, then a match *)
RECURSIVE Put(_, _, _)
Put(x, fs, y) ==                    \* x with the field fs set to y
    IF fs = <<>> THEN y
    ELSE LET old == IF x.t = "o" THEN x.v ELSE <<>>
             sub == IF x.t = "o" THEN Field(x, fs[1]) ELSE Absent
         IN Obj(Filter(old, LAMBDA p : p.k # fs[1]) \o <<Pair(fs[1], Put(sub, Tail(fs), y))>>)
PairsOf(x) == IF x.t = "o" THEN Arr(TLCEval([i \in 1..Len(x.v) |-> Obj(<<Pair("k", Str(x.v[i].k)), Pair("v", x.v[i].v)>>)])) ELSE Absent
RECURSIVE AddFields(_, _)
AddFields(x, fields) ==
    IF fields = <<>> THEN x
    ELSE LET src == From(fields[1].v.v[1].v.v, 2)         \* {"$objectToArray": "$a.b"}
             vs  == FieldValues(x, src)
             ps  == IF vs = <<>> THEN Absent ELSE PairsOf(vs[1])
         IN AddFields(IF IsThere(ps) THEN Put(x, Split(fields[1].k, "."), ps) ELSE x, Tail(fields))
RECURSIVE RunSteps(_, _, _)
RunSteps(x, steps, i) ==
    LET k == steps[i].v[1].k
        a == steps[i].v[1].v
    IN IF k = "$match" THEN Selects(a, x) ELSE RunSteps(AddFields(x, a.v), steps, i + 1)
QuerySelects(type, q, x) == IF type = "aggregate" THEN RunSteps(x, q.v, 1) ELSE Selects(q, x)

(* stored document: the rule's document under a base field *)
Stored(doc, base) == IF base = "" THEN doc ELSE Put(Obj(<<>>), Split(base, "."), doc)

(* ----------------------- which trees translate ----------------------- *)
(* depth: number of enclosing quantifiers; pair: directly below an ANY over one path *)
IsAbsolute(p) == HasPrefix(p, "$.") \/ HasPrefix(p, ".")
RECURSIVE Translates(_, _, _, _)
Translates(n, inside, arrays, pair) ==
    CASE n.n = "none" -> TRUE
      [] n.n = "cond" ->
            LET p == PathTail(n.a)
            IN /\ IsPathAttr(n.a)
               /\ ~(inside /\ IsAbsolute(p))
               /\ ~Contains(n.a, "..")
               /\ p # "$RELATIVE"
               /\ (HasPrefix(p, "$KEY") \/ HasPrefix(p, "$VALUE")) => pair /\ arrays < 2
      [] n.n \in {"and", "or", "not"} -> \A i \in 1..Len(n.c) : Translates(n.c[i], inside, arrays, FALSE)
      [] n.n \in {"any", "all"} ->
            LET ps == ParentPaths(n.a)
                ends == HasSuffix(n.a, "[:]") \/ HasSuffix(n.a, "[*]")
            IN /\ \A i \in 1..Len(ps) : /\ IsAbsolute(ps[i]) \/ HasPrefix(ps[i], "$RELATIVE.")
                                        /\ ~(inside /\ IsAbsolute(ps[i]))
                                        /\ ~Contains(ps[i], "..")
               /\ Translates(n.c[1], TRUE, arrays + 1 + (IF ends THEN 1 ELSE 0), n.n = "any" /\ Len(ps) = 1)
      [] OTHER -> FALSE
=================================================================================
