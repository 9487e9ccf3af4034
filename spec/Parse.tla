---------------------------------- MODULE Parse ----------------------------------
(* Which condition trees are well formed, and what tree they denote.              *)
(* Input: the tagged value under a rule's "conditions" key. Output: a node        *)
(* [n, c, a, m, v, r]: kind, children, attribute or parent path, method, value,   *)
(* return paths. Kind "err" stands for a rejected text.                           *)
EXTENDS Doc, Num, Regex

Node(n, c, a, m, v, r) == [n |-> n, c |-> c, a |-> a, m |-> m, v |-> v, r |-> r]
ErrNode   == Node("err", <<>>, "", "", "", <<>>)
NoneNode  == Node("none", <<>>, "", "", "", <<>>)       \* rule without conditions
AndNode(c)    == Node("and", c, "", "", "", <<>>)
OrNode(c)     == Node("or", c, "", "", "", <<>>)
NotNode(c)    == Node("not", <<c>>, "", "", "", <<>>)
AnyNode(p, r, c) == Node("any", <<c>>, p, "", "", r)
AllNode(p, r, c) == Node("all", <<c>>, p, "", "", r)
CondNode(a, m, v, r) == Node("cond", <<>>, a, m, v, r)

(* --------------------------- one condition --------------------------- *)
Methods == {"ge", "GE", "gt", "GT", "le", "LE", "lt", "LT", "re", "RE", "nre", "NRE", "in", "IN", "nin", "NIN",
            "eq", "EQ", "neq", "NEQ", "ne", "NE", "ex", "EX", "nex", "NEX", "IS"}
VersionMethods == {"EQ", "LT", "LE", "GT", "GE"}
PlainAttributes == {"true", "TRUE", "false", "FALSE", "payloadSize", "requestUseragent", "utcHoursFromMidnight",
                    "encryptionType", "encryptionVersion", "domain"}
IsLabelAttr(a)  == HasPrefix(a, "senderLabel[") \/ HasPrefix(a, "receiverLabel[")
IsObjectAttr(a) == HasPrefix(a, "$sender.") \/ HasPrefix(a, "$receiver.")
IsPathAttr(a)   == HasPrefix(a, "jsonpath:")
IsRelativeAttr(a) == \/ HasPrefix(a, "jsonpath:$RELATIVE.") \/ a = "jsonpath:$RELATIVE"
                     \/ HasPrefix(a, "jsonpath:$KEY") \/ HasPrefix(a, "jsonpath:$VALUE")

(* brackets in a condition path hold an index or a quoted name *)
Quoted(w) == Len(w) > 0 /\ \E q \in {"'", "\""} : At(w, 1) = q /\ At(w, Len(w)) = q
RECURSIVE BracketsOk(_, _, _)
BracketsOk(a, i, open) ==
    IF i > Len(a) THEN TRUE
    ELSE IF At(a, i) = "[" THEN BracketsOk(a, i + 1, i)
    ELSE IF At(a, i) = "]" THEN
            LET w == Sub(a, open + 1, i - 1)
            IN /\ Quoted(w) \/ AllDigits(w)
               /\ BracketsOk(a, i + 1, open)
    ELSE BracketsOk(a, i + 1, open)
PathAttrOk(a) ==
    /\ HasPrefix(a, "jsonpath:$") \/ HasPrefix(a, "jsonpath:.")
    /\ HasPrefix(a, "jsonpath:$.") \/ HasPrefix(a, "jsonpath:.") \/ IsRelativeAttr(a)
    /\ ~HasPrefix(a, "jsonpath:$KEY.")
    /\ BracketsOk(a, 1, 1)
LabelOk(x) == Index(x, "]") = Len(x)
AttributeOk(a, m, v) ==
    /\ a \in PlainAttributes \/ IsLabelAttr(a) \/ IsObjectAttr(a) \/ IsPathAttr(a)
    /\ a = "encryptionVersion" => Upper(m) \in VersionMethods
    /\ IsPathAttr(a) => PathAttrOk(a)
    /\ IsLabelAttr(a) => LabelOk(a) /\ Upper(m) \notin OrderMethods
    /\ IsObjectAttr(a) => Upper(m) \notin OrderMethods
    /\ HasPrefix(v, "receiverLabel[") => LabelOk(v)
ListItems(v) == Split(Replace(Replace(v, "[", ""), "]", ""), ",")
ListRegex(v) == "^" \o Join(ListItems(v), "$|^") \o "$"
ValueOk(m, v) ==
    /\ Upper(m) \in {"IN", "NIN"} => v # "" /\ ValidRegex(ListRegex(v))
    /\ Upper(m) \in OrderMethods => IsNumber(v)
    /\ Upper(m) \in {"RE", "NRE"} => ValidRegex(v)
CondOk(a, m, v) == m \in Methods /\ AttributeOk(a, m, v) /\ ValueOk(m, v)

(* ----------------------------- the tree ------------------------------ *)
Keys(x) == {x.v[i].k : i \in 1..Len(x.v)}
Has(x, k) == k \in Keys(x)
HasEither(x, k1, k2) == Has(x, k1) \/ Has(x, k2)
IsCondition(x) ==
    LET n  == Cardinality(Keys(x)) - (IF HasEither(x, "returnValueJsonpath", "ReturnValueJsonpath") THEN 1 ELSE 0)
        am == HasEither(x, "attribute", "Attribute") /\ HasEither(x, "method", "Method")
        v  == HasEither(x, "value", "Value")
        vi == HasEither(x, "valueInt", "ValueInt")
        vf == HasEither(x, "valueFloat", "ValueFloat")
    IN am /\ \/ n = 2
             \/ n = 3 /\ v
             \/ n = 4 /\ v /\ (vi \/ vf)
             \/ n = 5 /\ v /\ vi /\ vf
Either(x, k1, k2) == IF Has(x, k1) THEN Field(x, k1) ELSE Field(x, k2)
TextOf(x) == IF x.t \in {"s", "n", "b"} THEN x.v ELSE ""
ReturnPaths(x) == IF x.t = "o" THEN TLCEval([i \in 1..Len(x.v) |-> Pair(x.v[i].k, TextOf(x.v[i].v))]) ELSE <<>>
ConditionOf(x) ==
    LET a == TextOf(Either(x, "attribute", "Attribute"))
        m == TextOf(Either(x, "method", "Method"))
        v == TextOf(Either(x, "value", "Value"))
    IN IF CondOk(a, m, v)
       THEN CondNode(a, m, v, ReturnPaths(Either(x, "returnValueJsonpath", "ReturnValueJsonpath")))
       ELSE ErrNode

ParentOk(p) == p.t = "s" /\ (HasPrefix(p.v, "jsonpath:.") \/ HasPrefix(p.v, "jsonpath:$.") \/ HasPrefix(p.v, "jsonpath:$RELATIVE"))
ReturnOk(r) == r.t = "o" /\ \A i \in 1..Len(r.v) : r.v[i].v.t = "s" /\ HasPrefix(r.v[i].v.v, "jsonpath:$RELATIVE")

IsErr(n) == n.n = "err"
Combine(kind, c) == IF \E i \in 1..Len(c) : IsErr(c[i]) THEN ErrNode
                    ELSE CASE kind = "AND" -> AndNode(c)
                           [] kind = "OR" -> OrNode(c)
                           [] kind = "NOT" /\ c # <<>> -> NotNode(Last(c))
                           [] OTHER -> ErrNode

RECURSIVE Interpret(_, _)
Quantifier(x, kind) ==
    LET ks  == Keys(x) \ {"parentJsonpathAttribute", "returnValueJsonpath"}
        key == CHOOSE k \in ks : TRUE
        sub == Interpret(Field(x, key), key)
        r   == Field(x, "returnValueJsonpath")
        p   == Field(x, "parentJsonpathAttribute").v
    IN IF ~Has(x, "parentJsonpathAttribute") \/ Cardinality(ks) # 1 THEN ErrNode
       ELSE IF ~ParentOk(Field(x, "parentJsonpathAttribute")) THEN ErrNode
       ELSE IF IsThere(r) /\ ~ReturnOk(r) THEN ErrNode
       ELSE IF IsErr(sub) THEN ErrNode
       ELSE IF kind = "ANY" THEN AnyNode(p, ReturnPaths(r), sub) ELSE AllNode(p, ReturnPaths(r), sub)
(* x: value, key: the key it was found under ("" at the top and inside lists) *)
Interpret(x, key) ==
    CASE x.t = "o" /\ IsCondition(x) ->
            LET c == ConditionOf(x)
            IN IF IsErr(c) THEN ErrNode
               ELSE IF key \in {"", "condition", "conditionsTree"} THEN c
               ELSE Combine(key, <<c>>)
      [] x.t = "o" /\ ~IsCondition(x) ->
            LET one == Cardinality(Keys(x)) = 1
                k   == x.v[1].k
                sub == Interpret(x.v[1].v, k)
            IN IF key \in {"ANY", "ALL"} THEN Quantifier(x, key)
               ELSE IF ~one THEN ErrNode
               ELSE IF key = "NOT" THEN Combine("NOT", <<sub>>)
               ELSE IF key \in {"OR", "AND", "", "condition", "conditions", "conditionsTree"} THEN sub
               ELSE ErrNode
      [] x.t = "a" /\ key = "" -> IF Len(x.v) = 1 THEN Interpret(x.v[1], "") ELSE ErrNode
      [] x.t = "a" /\ key # "" ->
            IF key \in {"AND", "OR", "NOT"} THEN Combine(key, TLCEval([i \in 1..Len(x.v) |-> Interpret(x.v[i], "")]))
            ELSE ErrNode
      [] OTHER -> ErrNode

(* the conditions of a rule; absent conditions, and in JSON empty ones, place no constraint *)
Conditions(x, format) ==
    IF ~IsThere(x) THEN NoneNode
    ELSE IF format \in {"json", "bson"} /\ x.t \in {"o", "a"} /\ x.v = <<>> THEN NoneNode
    ELSE Interpret(x, "")
=================================================================================
