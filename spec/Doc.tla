----------------------------------- MODULE Doc -----------------------------------
(* JSON documents and the paths that rules use to point into them.                *)
(* A value is tagged: [t |-> "s"|"n"|"b"|"a"|"o"|"u", v |-> ..]; numbers and      *)
(* booleans carry their text, objects a sequence of [k, v] pairs sorted by key;   *)
(* "u" is null.                                                                   *)
EXTENDS Text

Str(s) == [t |-> "s", v |-> s]
Numb(s) == [t |-> "n", v |-> s]
Bool(b) == [t |-> "b", v |-> IF b THEN "true" ELSE "false"]
Arr(s) == [t |-> "a", v |-> s]
Obj(s) == [t |-> "o", v |-> s]
Pair(k, v) == [k |-> k, v |-> v]
Null == [t |-> "u", v |-> ""]
Absent == [t |-> "z", v |-> ""]
IsThere(x) == x.t # "z"

(* compact JSON text *)
Escaped(s) == Replace(Replace(s, "\\", "\\\\"), "\"", "\\\"")
RECURSIVE Json(_)
Json(x) == CASE x.t = "s" -> "\"" \o Escaped(x.v) \o "\""
             [] x.t \in {"n", "b"} -> x.v
             [] x.t = "a" -> "[" \o Join(TLCEval([i \in 1..Len(x.v) |-> Json(x.v[i])]), ",") \o "]"
             [] x.t = "o" -> "{" \o Join(TLCEval([i \in 1..Len(x.v) |-> "\"" \o x.v[i].k \o "\":" \o Json(x.v[i].v)]), ",") \o "}"
             [] OTHER -> "null"

Field(x, name) ==
    IF x.t # "o" THEN Absent
    ELSE LET is == {i \in 1..Len(x.v) : x.v[i].k = name}
         IN IF is = {} THEN Absent ELSE x.v[CHOOSE i \in is : TRUE].v
Item(x, n) == IF x.t # "a" \/ n >= Len(x.v) THEN Absent ELSE x.v[n + 1]

(* ------------------------------ paths ------------------------------ *)
(* a path is a sequence of steps: field, index, all items, deep field  *)
Step(k, s, n) == [k |-> k, s |-> s, n |-> n]
BadPath == <<Step("bad", "", 0)>>
RECURSIVE Until(_, _, _)
Until(p, i, stops) == IF i > Len(p) \/ At(p, i) \in stops THEN i ELSE Until(p, i + 1, stops)
RECURSIVE Steps(_, _)
Steps(p, i) ==
    IF i > Len(p) THEN <<>>
    ELSE CASE At(p, i) = "." /\ i < Len(p) /\ At(p, i + 1) = "." ->
                LET j == Until(p, i + 2, {".", "["})
                IN <<Step("deep", Sub(p, i + 2, j - 1), 0)>> \o Steps(p, j)
           [] At(p, i) = "." /\ i < Len(p) /\ At(p, i + 1) \in {"'", "\""} ->
                LET j == IndexFrom(p, At(p, i + 1), i + 2)
                IN IF j = 0 THEN BadPath
                   ELSE <<Step("f", Sub(p, i + 2, j - 1), 1)>> \o Steps(p, j + 1)
           [] At(p, i) = "." /\ i < Len(p) /\ At(p, i + 1) = "[" -> Steps(p, i + 1)
           [] At(p, i) = "." ->
                LET j == Until(p, i + 1, {".", "["})
                IN IF j = i + 1 THEN BadPath
                   ELSE <<Step("f", Sub(p, i + 1, j - 1), 1)>> \o Steps(p, j)
           [] At(p, i) = "[" ->
                LET quoted == i < Len(p) /\ At(p, i + 1) \in {"'", "\""}
                    q == IF quoted THEN IndexFrom(p, At(p, i + 1), i + 2) ELSE 0
                    j == IF quoted THEN (IF q = 0 THEN 0 ELSE q + 1) ELSE IndexFrom(p, "]", i)
                    w == IF j = 0 THEN "" ELSE Sub(p, i + 1, j - 1)
                IN IF j = 0 \/ j > Len(p) THEN BadPath
                   ELSE IF At(p, j) # "]" THEN BadPath
                   ELSE IF quoted THEN <<Step("f", Sub(p, i + 2, q - 1), 0)>> \o Steps(p, j + 1)
                   ELSE IF w \in {":", "*"} THEN <<Step("all", "", 0)>> \o Steps(p, j + 1)
                   ELSE IF AllDigits(w) THEN <<Step("i", "", NatOf(w))>> \o Steps(p, j + 1)
                   ELSE BadPath
           [] OTHER -> BadPath

(* a name after a dot has to be an identifier; other names go into brackets *)
IsIdent(w) == Len(w) > 0 /\ (\A i \in 1..Len(w) : IsWord(At(w, i))) /\ ~IsDigit(At(w, 1))
StepOk(st) == CASE st.k = "bad" -> FALSE
                [] st.k = "f" /\ st.n = 1 -> IsIdent(st.s)
                [] st.k = "deep" -> IsIdent(st.s)
                [] OTHER -> TRUE
PathOk(p) == LET st == Steps(p, 1) IN \A i \in 1..Len(st) : StepOk(st[i])

RECURSIVE Walk(_, _, _)
Walk(x, st, i) ==
    IF i > Len(st) \/ ~IsThere(x) THEN x
    ELSE CASE st[i].k = "f" -> Walk(Field(x, st[i].s), st, i + 1)
           [] st[i].k = "i" -> Walk(Item(x, st[i].n), st, i + 1)
           [] OTHER -> Absent
(* value at the end of a path whose steps are fields and indices *)
Lookup(x, path) == Walk(x, Steps(path, 1), 1)

(* elements of a collection: items of an array, key-value pairs of an object *)
Elements(x) == CASE x.t = "a" -> x.v
                 [] x.t = "o" -> TLCEval([i \in 1..Len(x.v) |-> Obj(<<x.v[i]>>)])
                 [] OTHER -> <<>>
(* values named by a path with "all items" steps: the collections themselves *)
RECURSIVE Deep(_, _)
Deep(x, name) ==          \* every value of field name at any depth
    CASE x.t = "o" -> (IF IsThere(Field(x, name)) THEN <<Field(x, name)>> ELSE <<>>)
                      \o Flat(TLCEval([i \in 1..Len(x.v) |-> Deep(x.v[i].v, name)]))
      [] x.t = "a" -> Flat(TLCEval([i \in 1..Len(x.v) |-> Deep(x.v[i], name)]))
      [] OTHER -> <<>>
RECURSIVE Collect(_, _, _)
Collect(xs, st, i) ==
    IF i > Len(st) THEN xs
    ELSE LET next(x) == CASE st[i].k = "f" -> IF IsThere(Field(x, st[i].s)) THEN <<Field(x, st[i].s)>> ELSE <<>>
                          [] st[i].k = "i" -> IF IsThere(Item(x, st[i].n)) THEN <<Item(x, st[i].n)>> ELSE <<>>
                          [] st[i].k = "all" -> IF x.t = "a" THEN x.v ELSE <<>>
                          [] st[i].k = "deep" -> Deep(x, st[i].s)
                          [] OTHER -> <<>>
         IN Collect(Flat(TLCEval([j \in 1..Len(xs) |-> next(xs[j])])), st, i + 1)
(* elements an ANY/ALL parent path names; a final [:] or [*] on an array changes nothing *)
Collections(x, path) ==
    LET st0  == Steps(path, 1)
        st   == IF st0 # <<>> /\ Last(st0).k = "all" THEN SubSeq(st0, 1, Len(st0) - 1) ELSE st0
        all  == Len(st) < Len(st0)
    IN Filter(Collect(<<x>>, st, 1), LAMBDA c : ~all \/ c.t = "a")
Named(x, path) == LET cs == Collections(x, path) IN Flat(TLCEval([j \in 1..Len(cs) |-> Elements(cs[j])]))
(* values below an object, and values of a deep scan, come in no particular order *)
NoOrder(x, path) == \/ Contains(path, "..")
                    \/ LET cs == Collections(x, path) IN \E j \in 1..Len(cs) : cs[j].t = "o"
=================================================================================
