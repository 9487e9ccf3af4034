----------------------------------- MODULE Rule -----------------------------------
(* Rules: predefined names, preparation, and when a rule applies to a message.    *)
(* A rule is a record of texts [id, st, sn, rt, rn, proto, rest, resn, oper, dec],*)
(* meta (pairs) and t, its condition tree.                                        *)
EXTENDS Tree, Pattern, Net

(* ------------------------- predefined names ------------------------- *)
(* a set p has strings p.s (pairs) and lists p.l (pairs of name and texts) *)
EmptySet == [s |-> <<>>, l |-> <<>>]
HasKey(ps, k) == \E i \in 1..Len(ps) : ps[i].k = k
Get(ps, k) == ps[CHOOSE i \in 1..Len(ps) : ps[i].k = k].v
IsRef(x) == HasPrefix(x, "#")
RefName(x) == From(x, 2)
SetOk(p) == \A i \in 1..Len(p.l) : \A j \in 1..Len(p.l[i].v) :
                IsRef(p.l[i].v[j]) => HasKey(p.s, RefName(p.l[i].v[j]))
ListOf(p, k) == LET l == Get(p.l, k)
                IN TLCEval([j \in 1..Len(l) |-> IF IsRef(l[j]) THEN Get(p.s, RefName(l[j])) ELSE l[j]])
Defined(x, p) == ~IsRef(x) \/ HasKey(p.l, RefName(x)) \/ HasKey(p.s, RefName(x))
Subst(x, sep, p) == IF ~IsRef(x) THEN x
                    ELSE IF HasKey(p.l, RefName(x)) THEN Join(ListOf(p, RefName(x)), sep)
                    ELSE Get(p.s, RefName(x))
RegexMethods == {"RE", "NRE", "re", "nre"}

(* -------------------------- preparation ----------------------------- *)
CompilesFor(a, m, v) ==
    IF IsPathAttr(a)
    THEN IF Upper(m) = "IS" THEN ValidRegex(ListRegex(v)) ELSE TRUE
    ELSE IF HasPrefix(a, "senderLabel[") /\ HasPrefix(v, "receiverLabel[") /\ Upper(m) \notin {"IN", "NIN", "IS", "RE", "NRE"} THEN TRUE
    ELSE IF Upper(m) \in {"IN", "NIN", "IS"} THEN ValidRegex(ListRegex(v)) ELSE ValidRegex("^" \o v \o "$")
CondPathOk(a) == LET p == PathTail(a)
                 IN CASE p \in {"$RELATIVE", "$KEY", "$VALUE"} -> TRUE
                      [] HasPrefix(p, "$RELATIVE.") -> PathOk(From(p, Len("$RELATIVE") + 1))
                      [] HasPrefix(p, "$VALUE.") -> PathOk(From(p, Len("$VALUE") + 1))
                      [] HasPrefix(p, "$KEY") \/ HasPrefix(p, "$VALUE") -> TRUE
                      [] HasPrefix(p, "$") -> PathOk(From(p, 2))
                      [] OTHER -> PathOk(p)
(* parents take names in double quoted brackets only *)
ParentPathOk(p) == /\ ~Contains(p, "'") /\ ~Contains(p, ".\"")
                   /\ CASE p \in {"$RELATIVE", "$RELATIVE*", "$*"} -> TRUE
                        [] HasPrefix(p, "$RELATIVE") -> PathOk(From(p, Len("$RELATIVE") + 1))
                        [] HasPrefix(p, "$") -> PathOk(From(p, 2))
                        [] OTHER -> HasPrefix(p, ".") /\ PathOk(p)
RECURSIVE SubstTree(_, _)
SubstTree(n, p) ==
    IF n.n = "cond"
    THEN [n EXCEPT !.v = Subst(n.v, IF n.m \in RegexMethods THEN "|" ELSE ",", p)]
    ELSE [n EXCEPT !.c = TLCEval([i \in 1..Len(n.c) |-> SubstTree(n.c[i], p)])]
RECURSIVE TreeDefined(_, _)
TreeDefined(n, p) == IF n.n = "cond" THEN Defined(n.v, p)
                     ELSE \A i \in 1..Len(n.c) : TreeDefined(n.c[i], p)
RECURSIVE TreeOk(_)
TreeOk(n) == CASE n.n = "none" -> TRUE
               [] n.n = "cond" -> /\ CondOk(n.a, n.m, n.v)
                                  /\ CompilesFor(n.a, n.m, n.v)
                                  /\ IsPathAttr(n.a) => CondPathOk(n.a)
               [] n.n \in {"and", "or"} -> n.c # <<>> /\ \A i \in 1..Len(n.c) : TreeOk(n.c[i])
               [] n.n = "not" -> TreeOk(n.c[1])
               [] n.n \in {"any", "all"} -> /\ TreeOk(n.c[1])
                                            /\ LET ps == ParentPaths(n.a) IN \A i \in 1..Len(ps) : ParentPathOk(ps[i])
               [] OTHER -> FALSE
NamesOk(r) == /\ r.st = "subnet" => SubnetOk(r.sn)
              /\ r.rt = "subnet" => SubnetOk(r.rn)
CanPrepare(r, p) == /\ Defined(r.sn, p) /\ Defined(r.rn, p) /\ TreeDefined(r.t, p)
                    /\ TreeOk(SubstTree(r.t, p))
                    /\ NamesOk([r EXCEPT !.sn = Subst(r.sn, ",", p), !.rn = Subst(r.rn, ",", p)])
Prepared(r, p) == [r EXCEPT !.sn = Subst(r.sn, ",", p), !.rn = Subst(r.rn, ",", p), !.t = SubstTree(r.t, p)]
(* validation ignores names: it asks for a preparable rule without references in conditions *)
IsValid(r) == TreeDefined(r.t, EmptySet) /\ TreeOk(r.t) /\ NamesOk(r)

(* ---------------------------- matching ------------------------------ *)
SenderMatches(r, m) == CASE r.st = "subnet" -> SubnetMatches(r.sn, m.sip)
                         [] r.st \in {"*", "workload"} -> ServiceMatches(r.sn, m.ssvc)
                         [] OTHER -> FALSE
ReceiverMatches(r, m) == CASE r.rt = "subnet" -> SubnetMatches(r.rn, m.dip)
                           [] r.rt = "hostname" -> ServiceMatches(r.rn, m.host)
                           [] r.rt \in {"*", "workload"} -> ServiceMatches(r.rn, m.dsvc)
                           [] OTHER -> FALSE
ResourceMatches(r, m) ==
    CASE r.proto = "tcp" -> NameMatches(r.resn, m.port)
      [] r.proto = "*" -> TRUE
      [] OTHER -> /\ SameFold(m.proto, r.proto)
                  /\ r.rest = "*" \/ r.rest = m.ptype
                  /\ NameMatches(r.resn, m.path)
Matches(r, m) == /\ SenderMatches(r, m) /\ ReceiverMatches(r, m)
                 /\ OperationMatches(r.oper, m.method) /\ ResourceMatches(r, m)

(* ---------------------------- decisions ----------------------------- *)
DEFAULT == 0
ALLOW == 1
ALERT == 2
BLOCK == 3
DecisionOf(d) == CASE d \in {"allow", "ALLOW", "Allow"} -> ALLOW
                   [] d \in {"alert", "ALERT", "Alert"} -> ALERT
                   [] d \in {"block", "BLOCK", "Block"} -> BLOCK
                   [] OTHER -> DEFAULT
DecisionName(d) == CASE d = ALLOW -> "allow"
                     [] d = ALERT -> "alert"
                     [] d = BLOCK -> "block"
                     [] OTHER -> "rules do not apply to message - block by default"
NoDecision == [d |-> DEFAULT, x |-> <<>>, u |-> FALSE]
(* decision of one prepared rule with its returned values; u: values unordered *)
Apply(r, m) ==
    LET e == IF r.t.n = "none" THEN Res(TRUE, <<>>) ELSE Eval(r.t, m, Absent)
        d == DecisionOf(r.dec)
    IN IF ~Matches(r, m) THEN NoDecision
       ELSE IF ~e.f \/ d = DEFAULT THEN NoDecision
       ELSE [d |-> d, x |-> e.x, u |-> Unordered(r.t, m.doc)]

(* overall decision: the strictest; the first rule that gives it is the relevant one *)
MaxOf(ds) == LET D == Range(ds) \cup {DEFAULT} IN CHOOSE d \in D : \A e \in D : e <= d
Relevant(ds) == IF MaxOf(ds) = DEFAULT THEN 0      \* 1-based, 0: none
                ELSE CHOOSE i \in 1..Len(ds) : ds[i] = MaxOf(ds) /\ \A j \in 1..(i - 1) : ds[j] # ds[i]
Applied(ds) == Filter(TLCEval([i \in 1..Len(ds) |-> i]), LAMBDA i : ds[i] # DEFAULT)
Description(r) == IF HasKey(r.meta, "description") THEN Get(r.meta, "description") ELSE ""
=================================================================================
