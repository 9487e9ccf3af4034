---------------------------------- MODULE Cond ----------------------------------
(* The meaning of one condition on a message.                                     *)
(* A message m is a record of text attributes; m.doc is its document or Absent,   *)
(* rel the element of the innermost enclosing ANY/ALL or Absent.                  *)
EXTENDS Parse

(* text of a document value as conditions see it *)
Unwrap(s) ==
    LET s1 == Replace(Replace(s, "[[", "["), "]]", "]")
        s2 == Replace(Replace(s1, "[\"", "\""), "\"]", "\"")
        s3 == IF s2 = "[]" THEN "" ELSE s2
        Off(x) == IF Len(x) >= 2 /\ At(x, 1) = "\"" /\ At(x, Len(x)) = "\"" THEN Sub(x, 2, Len(x) - 1) ELSE x
    IN Off(Off(s3))
ValueText(x) == CASE x.t = "s" -> x.v
                  [] x.t \in {"n", "b"} -> x.v
                  [] x.t \in {"a", "o"} -> Unwrap(Json(x))
                  [] OTHER -> ""

(* an item of a list is a regular expression for the whole value *)
PlainItem(w) == \A i \in 1..Len(w) : IsWord(At(w, i)) \/ At(w, i) \in {"-", " ", "/", ":"}
ItemMatches(w, s) == IF PlainItem(w) THEN w = s ELSE Search("^" \o w \o "$", s)
InList(v, s) == LET ws == ListItems(v) IN \E i \in 1..Len(ws) : ItemMatches(ws[i], s)
(* methods that look at a present text *)
TextMethod(m, s, v) == CASE m \in {"IN", "IS"} -> InList(v, s)
                         [] m = "NIN" -> ~InList(v, s)
                         [] m = "RE"  -> Search(v, s)
                         [] m = "NRE" -> ~Search(v, s)
                         [] OTHER -> FALSE
TextMethods == {"IN", "IS", "NIN", "RE", "NRE"}
LiteralMethod(m, s, v) == CASE m = "EQ" -> s = v
                            [] m \in {"NEQ", "NE"} -> s # v
                            [] OTHER -> FALSE
NumberMethod(m, s, v) ==         \* s is a number
    IF IsNumber(v) THEN Holds(Cmp(Number(s), Number(v)), m) ELSE m \in {"NEQ", "NE"}

(* --------------------------- document values --------------------------- *)
SingleField(e) == e.t = "o" /\ Len(e.v) = 1
PathTail(a) == From(a, Len("jsonpath:") + 1)
Target(a, doc, rel) ==
    LET p == PathTail(a)
    IN CASE p = "$RELATIVE" -> rel
         [] HasPrefix(p, "$RELATIVE.") -> Lookup(rel, From(p, Len("$RELATIVE") + 1))
         [] p = "$KEY" -> IF SingleField(rel) THEN Str(rel.v[1].k) ELSE Absent
         [] p = "$VALUE" -> IF SingleField(rel) THEN rel.v[1].v ELSE Absent
         [] HasPrefix(p, "$VALUE.") -> IF SingleField(rel) THEN Lookup(rel.v[1].v, From(p, Len("$VALUE") + 1)) ELSE Absent
         [] HasPrefix(p, "$.") -> Lookup(doc, From(p, 2))
         [] OTHER -> Lookup(doc, p)
DocCondition(a, method, v, doc, rel) ==
    LET m == Upper(method)
        x == Target(a, doc, rel)
        s == ValueText(x)
    IN IF (IF IsRelativeAttr(a) THEN ~IsThere(rel) ELSE ~IsThere(doc)) THEN FALSE
       ELSE IF s = "" THEN m = "NEX"
       ELSE CASE m = "EX" -> TRUE
              [] m = "NEX" -> FALSE
              [] m \in TextMethods -> TextMethod(m, s, v)
              [] IsNumber(s) -> NumberMethod(m, s, v)
              [] IsNumber(v) -> m \in {"NEQ", "NE"}
              [] OTHER -> LiteralMethod(m, s, v)

(* -------------------------- message attributes -------------------------- *)
TextAttr(method, s, v) ==
    LET m == Upper(method)
    IN CASE m \in TextMethods -> TextMethod(m, s, v)
         [] m = "EX" -> s # ""
         [] m = "NEX" -> s = ""
         [] OTHER -> LiteralMethod(m, s, v)
NumAttr(method, s, v) == LET m == Upper(method)
                         IN m \in OrderMethods \cup EqMethods /\ NumberMethod(m, s, v)
Lookup2(ps, k) == LET is == {i \in 1..Len(ps) : ps[i].k = k}      \* label value or Absent
                  IN IF is = {} THEN Absent ELSE Str(ps[CHOOSE i \in is : TRUE].v)
LabelKey(a) == LET i == Index(a, "[") IN Sub(a, i + 1, Len(a) - 1)
Party(m, side, what) == CASE what = "namespace" -> IF side = "s" THEN m.sns ELSE m.dns
                          [] what = "cluster" -> IF side = "s" THEN m.scl ELSE m.dcl
                          [] OTHER -> ""
LabelCondition(a, method, v, m) ==
    LET sender == HasPrefix(a, "senderLabel[")
        x == Lookup2(IF sender THEN m.sl ELSE m.dl, LabelKey(a))
        y == Lookup2(m.dl, LabelKey(v))
        u == Upper(method)
    IN IF u = "NEX" THEN ~IsThere(x)
       ELSE IF ~IsThere(x) THEN FALSE
       ELSE IF sender /\ HasPrefix(v, "receiverLabel[") /\ u \notin {"IN", "NIN", "IS"}
            THEN IsThere(y) /\ LiteralMethod(u, x.v, y.v)
       ELSE IF u = "EX" THEN TRUE
       ELSE TextAttr(method, x.v, v)
PartyCondition(a, method, v, m) ==
    LET sender == HasPrefix(a, "$sender.")
        s == Party(m, IF sender THEN "s" ELSE "r", IF sender THEN From(a, 9) ELSE From(a, 11))
        u == Upper(method)
    IN IF sender /\ HasPrefix(v, "$receiver.") /\ u \notin {"IN", "NIN", "IS"}
       THEN LiteralMethod(u, s, Party(m, "r", From(v, 11)))
       ELSE TextAttr(method, s, v)

CondHolds(c, m, rel) ==
    LET a == c.a
    IN CASE a \in {"true", "TRUE"} -> TRUE
         [] a \in {"false", "FALSE"} -> FALSE
         [] a = "payloadSize" -> NumAttr(c.m, m.size, c.v)
         [] a = "utcHoursFromMidnight" -> NumAttr(c.m, m.hours, c.v)
         [] a = "encryptionVersion" -> m.encv # "" /\ NumAttr(c.m, m.encv, c.v)
         [] a = "requestUseragent" -> TextAttr(c.m, m.ua, c.v)
         [] a = "encryptionType" -> TextAttr(c.m, m.enct, c.v)
         [] a = "domain" -> TextAttr(c.m, m.dom, c.v)
         [] IsLabelAttr(a) -> LabelCondition(a, c.m, c.v, m)
         [] IsObjectAttr(a) -> PartyCondition(a, c.m, c.v, m)
         [] OTHER -> DocCondition(a, c.m, c.v, m.doc, rel)
=================================================================================
