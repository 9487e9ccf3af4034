--------------------------------- MODULE MC_Life ---------------------------------
(* The life of two rules with references: every sequence of calls that give sets  *)
(* (good, missing the name, unreadable), change the global set, use, copy and     *)
(* serialise the rules. What a rule is evaluated with is tracked a second time,   *)
(* in the plainest possible way, and compared with the engine's state.            *)
EXTENDS Small

Set1(v) == [s |-> <<Pair("n", v)>>, l |-> <<>>]
Broken == [s |-> <<>>, l |-> <<Pair("n", <<"#gone">>)>>]           \* cannot be read
TheRule == WithCond(C3("domain", "EQ", "#n"))
M == Msg0                                                          \* domain "prod"
Good == Set1("prod")
Other == Set1("dev")
Lacks == [s |-> <<Pair("x", "prod")>>, l |-> <<>>]                 \* does not define the name
Hs == {"a", "b"}
SetCall(h, p) == [op |-> "setp", h |-> h, p |-> p]
Calls == {SetCall("a", p) : p \in {Good, Other, Lacks, Broken}}
         \cup {[op |-> "setg", p |-> p] : p \in {Good, Other, Broken}}
         \cup {One("a", "m"), Check(<<"a", "b">>, "m"), [op |-> "copy", h |-> "a", to |-> "b"],
               [op |-> "rt", h |-> "a", to |-> "b", fmt |-> "json"], SetCall("b", Good), Test("b", "m"), [op |-> "val", h |-> "a"]}
Depth == IF Deep2 THEN 4 ELSE 3
Probes == <<Check(<<"a", "b">>, "m"), One("a", "m"), One("b", "m"), [op |-> "setg", p |-> Other], Check(<<"b", "a">>, "m"), One("b", "m"), One("a", "m")>>

(* observations stand in for those of the engine: only the next state is used here *)
Any0 == [panic |-> "", ok |-> TRUE, dec |-> 0, ex |-> <<>>, f |-> FALSE, name |-> "", rel |-> 0, res |-> <<>>, app |-> <<>>, desc |-> "",
         text |-> TRUE, meta |-> <<>>, id |-> ""]
Obs(c) == c @@ [obs |-> Any0]
After(s, c) == Judge(s, Obs(c)).st

VARIABLES st, hist, eff, g, done
vars == <<st, hist, eff, g, done>>
None == "none"              \* not given a set
Init == /\ st = After(After(After(Init0, PutMsg("m", M, "raw")), Load("a", TheRule)), Load("b", TheRule))
        /\ hist = <<>> /\ eff = [h \in Hs |-> None] /\ g = "empty" /\ done = FALSE
(* the second account: the name of the set each rule is evaluated with *)
Named1(p) == CASE p = Good -> "good" [] p = Other -> "other" [] p = Lacks -> "lacks" [] OTHER -> "broken"
Fits(n) == n \in {"good", "other"}
Used1(h) == IF eff[h] # None THEN eff[h] ELSE IF Fits(g) THEN g ELSE None
Track(c) ==
    /\ g' = IF c.op = "setg" /\ c.p # Broken THEN Named1(c.p) ELSE g
    /\ eff' = CASE c.op = "setp" /\ c.p # Broken -> [eff EXCEPT ![c.h] = IF Fits(Named1(c.p)) THEN Named1(c.p) ELSE None]
                [] c.op \in {"one", "test"} -> [eff EXCEPT ![c.h] = Used1(c.h)]
                [] c.op = "copy" -> [eff EXCEPT !["b"] = eff["a"]]
                [] c.op = "rt" -> [eff EXCEPT !["b"] = None]
                [] OTHER -> eff
Go == /\ Len(hist) < Depth
      /\ \E c \in Calls : st' = After(st, c) /\ hist' = Append(hist, c) /\ Track(c)
      /\ UNCHANGED done
Stop == /\ Len(hist) = Depth /\ ~done
        /\ done' = TRUE /\ UNCHANGED <<st, hist, eff, g>>
        /\ Emit("life " \o Join(Seq1(Len(hist), LAMBDA i : hist[i].op), " "),
                <<PutMsg("m", M, "raw"), Load("a", TheRule), Load("b", TheRule)>> \o hist \o Probes)
Next == Go \/ Stop
Spec == Init /\ [][Next]_vars

SetNamed(n) == CASE n = "good" -> Good [] n = "other" -> Other [] OTHER -> EmptySet
Inv == /\ \A h \in Hs : /\ st.h[h].ok <=> eff[h] # None
                        /\ st.h[h].r = AsRule(TheRule)                           \* the definition never changes
                        /\ st.h[h].ok => st.h[h].p = Prepared(st.h[h].r, SetNamed(eff[h]))
       /\ LET w == CheckList(<<st.h["a"], st.h["b"]>>, M, st.g)                   \* what a check of the list says
          IN \A i \in 1..2 : w.res[i] = IF Used1(<<"a", "b">>[i]) = "good" THEN BLOCK ELSE DEFAULT
=================================================================================
