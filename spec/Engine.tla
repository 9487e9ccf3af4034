---------------------------------- MODULE Engine ----------------------------------
(* The engine as a state machine. A state holds the loaded rules (with their      *)
(* preparation), the messages, and the global predefined set. A step is one call  *)
(* of the public interface. Judge(st, ev) gives the next state and the names of   *)
(* the observed results of the call that the specification does not allow.        *)
EXTENDS Canon, Mongo, Message

NoRule == [id |-> "", st |-> "", sn |-> "", rt |-> "", rn |-> "", proto |-> "", rest |-> "", resn |-> "",
           oper |-> "", dec |-> "", meta |-> <<>>, t |-> ErrNode]
(* rule handle: definition r; ok: prepared; p: the prepared rule *)
Handle(r) == [r |-> r, ok |-> FALSE, p |-> NoRule]
Init0 == [h |-> <<>>, m |-> <<>>, g |-> EmptySet, snap |-> <<>>]
\* the maps h, m, snap are functions from names; <<>> is the empty one

RuleOf(x, format) ==
    [id |-> x.id, st |-> x.st, sn |-> x.sn, rt |-> x.rt, rn |-> x.rn, proto |-> x.proto, rest |-> x.rest,
     resn |-> x.resn, oper |-> x.oper, dec |-> x.dec, meta |-> x.meta, t |-> Conditions(x.cond, format)]

(* giving a set: on failure the rule is left without any preparation *)
Give(hd, p) == IF CanPrepare(hd.r, p) THEN [r |-> hd.r, ok |-> TRUE, p |-> Prepared(hd.r, p)]
               ELSE Handle(hd.r)
(* using a rule that was not given a set gives it the global one *)
Use(hd, g) == IF hd.ok THEN hd ELSE Give(hd, g)
ApplyHandle(hd, m) == IF hd.ok THEN Apply(hd.p, m) ELSE NoDecision
TestHandle(hd, m) == IF hd.ok /\ hd.p.t.n # "none" THEN Eval(hd.p.t, m, Absent) ELSE Res(FALSE, <<>>)
TestUnordered(hd, m) == hd.ok /\ hd.p.t.n # "none" /\ Unordered(hd.p.t, m.doc)

Lower5(r) == [r EXCEPT !.st = Lower(r.st), !.rt = Lower(r.rt), !.rest = Lower(r.rest), !.proto = Lower(r.proto),
                       !.oper = Lower(r.oper), !.dec = Lower(r.dec)]

SetAt(f, k, v) == (k :> v) @@ f
RECURSIVE SetAll(_, _, _)
SetAll(f, ks, vs) == IF ks = <<>> THEN f ELSE SetAll(SetAt(f, ks[1], vs[1]), Tail(ks), Tail(vs))

(* loading rules, in the formats yamlp and filep together with a predefined set *)
Loaded(xs, ev) ==
    LET N    == Len(xs)
        r    == TLCEval([i \in 1..N |-> RuleOf(xs[i], ev.fmt)])
        ok   == \A i \in 1..N : ~IsErr(r[i].t)
        with == ev.fmt \in {"yamlp", "filep"}
        h    == TLCEval([i \in 1..N |-> IF with THEN Give(Handle(r[i]), ev.p) ELSE Handle(r[i])])
    IN IF ~ok THEN [ok |-> FALSE, h |-> <<>>]
       ELSE IF with /\ ~SetOk(ev.p) THEN [ok |-> FALSE, h |-> <<>>]
       ELSE IF with /\ \E i \in 1..N : ~h[i].ok THEN [ok |-> FALSE, h |-> <<>>]
       ELSE [ok |-> TRUE, h |-> h]
SameValues(unordered, a, b) == IF unordered THEN SameBag(a, b) ELSE a = b

(* ------------------- checking a list of rules ------------------- *)
CheckList(hds, m, g) ==          \* works on copies: unprepared rules use g, now
    LET N  == Len(hds)
        as == TLCEval([i \in 1..N |-> ApplyHandle(Use(hds[i], g), m)])
        ds == TLCEval([i \in 1..N |-> as[i].d])
        rel == Relevant(ds)
        ap == Applied(ds)
    IN [dec |-> MaxOf(ds), name |-> DecisionName(MaxOf(ds)), rel |-> rel - 1, res |-> ds,
        app |-> TLCEval([i \in 1..Len(ap) |-> ap[i] - 1]),
        desc |-> IF rel = 0 THEN "" ELSE Description(hds[rel].r),
        ex |-> TLCEval([i \in 1..N |-> as[i].x]), u |-> TLCEval([i \in 1..N |-> as[i].u])]
CheckDiff(w, o) ==               \* names of the results that differ
    (IF w.dec = o.dec THEN <<>> ELSE <<"dec">>) \o (IF w.name = o.name THEN <<>> ELSE <<"name">>)
    \o (IF w.rel = o.rel THEN <<>> ELSE <<"rel">>) \o (IF w.res = o.res THEN <<>> ELSE <<"res">>)
    \o (IF w.app = o.app THEN <<>> ELSE <<"app">>) \o (IF w.desc = o.desc THEN <<>> ELSE <<"desc">>)
    \o (IF Len(w.ex) = Len(o.ex) /\ \A i \in 1..Len(w.ex) : SameValues(w.u[i], w.ex[i], o.ex[i])
        THEN <<>> ELSE <<"ex">>)
Diff(name, w, o) == IF w = o THEN <<>> ELSE <<name>>

(* ---------------------------- coverage ---------------------------- *)
(* w: for every message its check; later messages with the same id replace earlier ones *)
CoverageOf(hds, ms, g) ==
    LET cs == TLCEval([j \in 1..Len(ms) |-> CheckList(hds, ms[j], g)])
        last(j) == \A k \in (j + 1)..Len(ms) : ms[k].id # ms[j].id
        ids(s) == TLCEval([i \in 1..Len(s) |-> hds[s[i] + 1].r.id])
        line(j) == Join(<<ms[j].id, IF cs[j].dec # DEFAULT THEN "covered" ELSE "-", NatText(cs[j].dec),
                          Join(ids(cs[j].app), "+"),
                          Join([i \in 1..Len(cs[j].app) |-> NatText(cs[j].res[cs[j].app[i] + 1])], "+")>>, "|")
        lastj == Filter(TLCEval([j \in 1..Len(ms) |-> j]), last)
        firsti == Filter(TLCEval([i \in 1..Len(hds) |-> i]), LAMBDA i : \A k \in 1..(i - 1) : hds[k].r.id # hds[i].r.id)
        \* messages in order; a message once for every rule of that id that applies
        hits(i) == Flat(TLCEval([j \in 1..Len(ms) |->
                       Flat([k \in 1..Len(cs[j].app) |->
                           IF hds[cs[j].app[k] + 1].r.id = hds[i].r.id THEN <<ms[j].id>> ELSE <<>>])]))
    IN [msg |-> TLCEval([j \in 1..Len(lastj) |-> line(lastj[j])]),
        rule |-> TLCEval([i \in 1..Len(firsti) |-> hds[firsti[i]].r.id \o "|" \o Join(hits(firsti[i]), "+")])]

(* ---------------------------- messages ---------------------------- *)
LoadedOk(a) == \A i \in 1..Len(a) : TimeOk(a[i].time)
LoadedAs(x) == [ptype |-> ResourceType(x.proto), secs |-> Seconds(x.time),
                sip |-> Address(x.sip), dip |-> Address(x.dip), sl |-> LabelPairs(x.sl), dl |-> LabelPairs(x.dl)]
SameLoaded(w, o) == /\ w.ptype = o.ptype
                    /\ o.secs = w.secs /\ o.mins = w.secs /\ o.hours = w.secs
                    /\ w.sip = o.sip /\ w.dip = o.dip
                    /\ SameBag(w.sl, o.sl) /\ SameBag(w.dl, o.dl)
                    /\ o.kept

(* ----------------------- texts of a rule for people ----------------------- *)
OrDefault(s) == IF s = "" THEN "default" ELSE s
TypeAndName(t, n) == t \o ":" \o n
NamesAll(n, text) ==                      \* every condition and every parent path is there
    LET RECURSIVE All(_)
        All(x) == CASE x.n = "none" -> TRUE
                    [] x.n = "cond" -> Contains(text, x.a) /\ Contains(text, x.m) /\ Contains(text, x.v)
                    [] x.n \in {"and", "or", "not"} -> \A i \in 1..Len(x.c) : All(x.c[i])
                    [] OTHER -> Contains(text, x.a) /\ Contains(text, IF x.n = "any" THEN "ANY" ELSE "ALL") /\ All(x.c[1])
    IN All(n)
ShownDiff(r, o) ==
    (IF r.st = "" THEN <<>> ELSE Diff("sender", TypeAndName(r.st, r.sn), o.snd))
    \o (IF r.rt = "" THEN <<>> ELSE Diff("receiver", TypeAndName(r.rt, r.rn), o.rcv))
    \o Diff("protocol", OrDefault(r.proto), o.proto) \o Diff("operation", OrDefault(r.oper), o.oper) \o Diff("decision", OrDefault(r.dec), o.dec)
    \o Diff("resource", IF r.rest = "" THEN "default:default" ELSE TypeAndName(r.rest, r.resn), o.res)
    \o Diff("conditions", r.t.n # "none", o.cond # "")
    \o (IF NamesAll(r.t, o.cond) THEN <<>> ELSE <<"conditions">>)

(* ------------------------------ steps ------------------------------ *)
Step0(st, bad) == [st |-> st, bad |-> bad]
Judge(st, ev) ==
    LET op == ev.op
        o  == ev.obs
        hd == st.h[ev.h]
        m  == st.m[ev.m]
        used == Use(hd, st.g)
        after == [st EXCEPT !.h = SetAt(st.h, ev.h, used)]
        hds == TLCEval([i \in 1..Len(ev.hs) |-> st.h[ev.hs[i]]])
    IN
    CASE op = "load" ->
            LET l == Loaded(<<ev.rule>>, ev)
            IN Step0(IF l.ok THEN [st EXCEPT !.h = SetAt(st.h, ev.h, l.h[1])] ELSE st, Diff("ok", l.ok, o.ok))
      [] op = "loads" ->                  \* several rules in one text: all or none
            LET l == Loaded(ev.rules, ev)
            IN Step0(IF l.ok THEN [st EXCEPT !.h = SetAll(st.h, ev.to, l.h)] ELSE st, Diff("ok", l.ok, o.ok))
      [] op = "setp" ->                   \* the set is read from text, then given to the rule
            LET h1 == IF SetOk(ev.p) THEN Give(hd, ev.p) ELSE hd
            IN Step0([st EXCEPT !.h = SetAt(st.h, ev.h, h1)], Diff("ok", SetOk(ev.p) /\ h1.ok, o.ok))
      [] op = "setg" ->
            Step0(IF SetOk(ev.p) THEN [st EXCEPT !.g = ev.p] ELSE st, Diff("ok", SetOk(ev.p), o.ok))
      [] op = "msg" -> Step0([st EXCEPT !.m = SetAt(st.m, ev.m, ev.a)], <<>>)
      [] op = "check" -> Step0(st, CheckDiff(CheckList(hds, m, st.g), o))
      [] op = "one" ->
            LET a == ApplyHandle(used, m)
            IN Step0(after, Diff("dec", a.d, o.dec) \o (IF SameValues(a.u, a.x, o.ex) THEN <<>> ELSE <<"ex">>))
      [] op = "test" ->
            LET a == TestHandle(used, m)
            IN Step0(after, Diff("flag", a.f, o.f) \o
                            (IF SameValues(TestUnordered(used, m), a.x, o.ex) THEN <<>> ELSE <<"ex">>))
      [] op = "onef" -> Step0(after, Diff("dec", ApplyHandle(used, m).d, o.dec))    \* only the decision
      [] op = "testf" -> Step0(after, Diff("flag", TestHandle(used, m).f, o.f))     \* only the outcome
      [] op = "val" -> Step0(st, Diff("ok", IsValid(hd.r), o.ok))
      [] op = "low" -> Step0([st EXCEPT !.h = SetAt(st.h, ev.h, [hd EXCEPT !.r = Lower5(hd.r)]),
                                        !.snap = SetAt(st.snap, "rule " \o ev.h, "")], <<>>)
      [] op = "copy" -> Step0([st EXCEPT !.h = SetAt(st.h, ev.to, hd), !.snap = SetAt(st.snap, "rule " \o ev.to, "")], <<>>)
      [] op = "prep" ->                   \* prepared in place: the definition now has the texts written out
            LET ok == SetOk(ev.p) /\ CanPrepare(hd.r, ev.p)
            IN Step0([st EXCEPT !.h = SetAt(st.h, ev.h, IF ok THEN [hd EXCEPT !.r = Prepared(hd.r, ev.p)] ELSE Handle(hd.r)),
                                !.snap = SetAt(st.snap, "rule " \o ev.h, "")], Diff("ok", ok, o.ok))
      [] op = "rt" ->                     \* serialise and read back: same definition, not prepared
            LET ok == TRUE
            IN Step0([st EXCEPT !.h = SetAt(st.h, ev.to, Handle(hd.r)), !.snap = SetAt(st.snap, "rule " \o ev.to, "")],
                     Diff("ok", ok, o.ok) \o Diff("text", TRUE, o.text) \o Diff("meta", hd.r.meta, o.meta)
                     \o Diff("id", hd.r.id, o.id))
      [] op = "hash" ->
            LET a == st.h[ev.h].r
                b == st.h[ev.to].r
            IN Step0(st, Diff("eq", SameRule(a, b), o.eq) \o Diff("ceq", SameConditions(a, b), o.ceq)
                         \o Diff("deq", SameConditions(a, b), o.deq))
      [] op = "nofile" -> Step0(st, Diff("ok", FALSE, o.ok))     \* a file that cannot be read
      [] op = "show" ->                   \* the texts of the rule for people; the same for as long as the definition is
            LET k == "shown " \o ev.h
                old == IF k \in DOMAIN st.snap THEN st.snap[k] ELSE <<hd.r, o>>
            IN Step0([st EXCEPT !.snap = SetAt(st.snap, k, <<hd.r, o>>)],
                     ShownDiff(hd.r, o) \o (IF old[1] = hd.r /\ old[2] # o THEN <<"changed">> ELSE <<>>))
      [] op = "snap" ->                   \* visible form of a rule: changes only by lower-casing
            LET k == "rule " \o ev.h
                old == IF k \in DOMAIN st.snap THEN st.snap[k] ELSE ""
            IN Step0([st EXCEPT !.snap = SetAt(st.snap, k, o.text)], IF old = "" THEN <<>> ELSE Diff("text", old, o.text))
      [] op = "msnap" ->                  \* visible form of a message: never changes
            LET k == "message " \o ev.m
                old == IF k \in DOMAIN st.snap THEN st.snap[k] ELSE ""
            IN Step0([st EXCEPT !.snap = SetAt(st.snap, k, o.text)], IF old = "" THEN <<>> ELSE Diff("text", old, o.text))
      [] op = "cov" ->
            LET w == CoverageOf(hds, TLCEval([j \in 1..Len(ev.ms) |-> st.m[ev.ms[j]]]), st.g)
            IN Step0(st, (IF SameBag(w.msg, o.msg) THEN <<>> ELSE <<"msg">>)
                         \o (IF SameBag(w.rule, o.rule) THEN <<>> ELSE <<"rule">>))
      [] op = "conc" ->                   \* every goroutine gets the sequential result
            LET w == TLCEval([j \in 1..Len(ev.ms) |-> CheckList(hds, st.m[ev.ms[j]], st.g)])
                \* o.r: distinct results, each with the index of its message
            IN Step0(st, Flat(TLCEval([k \in 1..Len(o.r) |-> CheckDiff(w[o.r[k].j], o.r[k].o)]))
                         \o (IF o.race THEN <<"race">> ELSE <<>>))
      [] op = "mongo" ->
            LET ok == used.ok /\ Translates(used.p.t, FALSE, 0, FALSE)
                same(d) == QuerySelects(o.type, o.q, Stored(d, ev.base))
                           = (used.p.t.n = "none" \/ Fulfils(used.p.t, [doc |-> d], Absent))
            IN Step0(after, IF ok # o.ok THEN <<"ok">>
                            ELSE IF ~ok THEN <<>>
                            ELSE IF \A i \in 1..Len(ev.docs) : same(ev.docs[i]) THEN <<>> ELSE <<"query">>)
      [] op = "msgload" ->
            LET ok == LoadedOk(ev.a)
            IN Step0(st, IF ok # o.ok THEN <<"ok">>
                         ELSE IF ~ok THEN <<>>
                         ELSE IF Len(o.a) = Len(ev.a) /\ \A i \in 1..Len(ev.a) : SameLoaded(LoadedAs(ev.a[i]), o.a[i])
                         THEN <<>> ELSE <<"attr">>)
      [] op = "crash" -> Step0(st, <<>>)  \* call whose result is free, it only has to return
      [] OTHER -> Step0(st, <<"unknown operation">>)
\* the answer of a free call is left to other checks, its effect counts
JudgeEvent(st, ev) == IF "free" \in DOMAIN ev THEN Step0(Judge(st, [ev EXCEPT !.obs = [@ EXCEPT !.panic = ""]]).st, <<>>)
                      ELSE IF ev.obs.panic # "" THEN Step0(st, <<"panic">>) ELSE Judge(st, ev)
=================================================================================
