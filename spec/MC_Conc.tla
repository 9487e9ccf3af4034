--------------------------------- MODULE MC_Conc ---------------------------------
(* Goroutines checking their messages against shared rules, one step per access   *)
(* to the shared rules: a rule is read, prepared privately when nobody gave it a  *)
(* set, and evaluated. Whatever the interleaving, each gets the sequential result.*)
(* InPlace is the design that prepares the shared rule itself, in two writes; TLC *)
(* refutes the invariant for it (see DESIGN.md), so the invariant is not vacuous. *)
EXTENDS Small

InPlace == IOEnv.SCOPE = "in place"
Set1(v) == [s |-> <<Pair("n", v)>>, l |-> <<>>]
Rules1 == <<WithCond(C3("domain", "EQ", "#n")), [Rule0 EXCEPT !.st = "workload", !.sn = "#n", !.dec = "alert"],
            WithCond(WQuant("ANY", "jsonpath:$.l", C3("jsonpath:$RELATIVE", "IN", "#n"))), [Rule0 EXCEPT !.dec = "allow"]>>
Msgs == <<[Msg0 EXCEPT !.dom = "prod", !.ssvc = "dev", !.doc = Obj(<<Pair("l", Arr(<<Str("prod")>>))>>)],
          [Msg0 EXCEPT !.dom = "dev", !.ssvc = "prod", !.doc = Obj(<<Pair("l", Arr(<<Str("dev")>>))>>)]>>
Threads == 1..(IF Deep2 THEN 3 ELSE 2)
MsgOf(t) == 1 + (t % 2)
\* configurations: which rules, and which of them were given a set before
Configs == [r : {<<1, 2>>, <<1, 4>>, <<2, 3>>, <<1, 1>>, <<3, 2, 1>>}, given : {{}, {1}, {2}, {1, 2}}, g : {"prod", "dev", "none"}]

VARIABLES cfg, hd, pc, mine, res, done
vars == <<cfg, hd, pc, mine, res, done>>
Glob(c) == IF c.g = "none" THEN EmptySet ELSE Set1(c.g)
Fresh(c, i) == LET h == Handle(AsRule(Rules1[c.r[i]])) IN IF i \in c.given THEN Give(h, Set1("prod")) ELSE h
N == Len(cfg.r)
Init == /\ cfg \in Configs
        /\ hd = [i \in 1..Len(cfg.r) |-> Fresh(cfg, i)]
        /\ pc = [t \in Threads |-> <<1, "read">>]
        /\ mine = [t \in Threads |-> Handle(NoRule)]
        /\ res = [t \in Threads |-> <<>>]
        /\ done = FALSE
Read(t) == /\ pc[t][1] <= N /\ pc[t][2] = "read"
           /\ mine' = [mine EXCEPT ![t] = hd[pc[t][1]]]
           /\ pc' = [pc EXCEPT ![t] = <<pc[t][1], IF mine'[t].ok THEN "eval" ELSE "prepare">>]
           /\ UNCHANGED <<cfg, hd, res, done>>
Prepare(t) == /\ pc[t][1] <= N /\ pc[t][2] = "prepare"
              /\ LET i == pc[t][1]
                     w == Give(mine[t], Glob(cfg))
                 IN /\ IF InPlace                       \* first the mark, then the content
                       THEN hd' = [hd EXCEPT ![i].ok = w.ok] /\ mine' = mine
                       ELSE hd' = hd /\ mine' = [mine EXCEPT ![t] = w]
                    /\ pc' = [pc EXCEPT ![t] = <<i, IF InPlace THEN "write" ELSE "eval">>]
              /\ UNCHANGED <<cfg, res, done>>
Write(t) == /\ pc[t][1] <= N /\ pc[t][2] = "write"
            /\ LET i == pc[t][1] w == Give(Handle(hd[i].r), Glob(cfg))
               IN hd' = [hd EXCEPT ![i] = w] /\ mine' = [mine EXCEPT ![t] = w] /\ pc' = [pc EXCEPT ![t] = <<i, "eval">>]
            /\ UNCHANGED <<cfg, res, done>>
Evaluate(t) == /\ pc[t][1] <= N /\ pc[t][2] = "eval"
               /\ res' = [res EXCEPT ![t] = Append(res[t], ApplyHandle(mine[t], Msgs[MsgOf(t)]).d)]
               /\ pc' = [pc EXCEPT ![t] = <<pc[t][1] + 1, "read">>]
               /\ UNCHANGED <<cfg, hd, mine, done>>
Hs == Seq1(Len(cfg.r), LAMBDA i : Name("r", i))
History == <<[op |-> "setg", p |-> Glob(cfg)], PutMsg("m1", Msgs[1], "raw"), PutMsg("m2", Msgs[2], "parsed"), PutMsg("m3", Msgs[1], "parsed")>>
           \o Flat1(Len(cfg.r), LAMBDA i : <<Load(Hs[i], [Rules1[cfg.r[i]] EXCEPT !.id = NatText(i)])>>
                                           \o (IF i \in cfg.given THEN <<[op |-> "setp", h |-> Hs[i], p |-> Set1("prod")]>> ELSE <<>>))
           \o <<[op |-> "conc", hs |-> Hs, ms |-> <<"m1", "m2", "m3">>, n |-> "8", reps |-> "20"], Check(Hs, "m1"), Check(Hs, "m2"), Check(Hs, "m3"),
                [op |-> "conc", hs |-> Hs, ms |-> <<"m1", "m2", "m3">>, n |-> "4", reps |-> "10"]>>
Finish == /\ ~done /\ \A t \in Threads : pc[t][1] > N
          /\ done' = TRUE /\ UNCHANGED <<cfg, hd, pc, mine, res>>
          /\ Emit("concurrent " \o ToString(cfg), History)
Next == Finish \/ \E t \in Threads : Read(t) \/ Prepare(t) \/ Write(t) \/ Evaluate(t)
Spec == Init /\ [][Next]_vars

Alone(t) == CheckList([i \in 1..N |-> Fresh(cfg, i)], Msgs[MsgOf(t)], Glob(cfg)).res
Inv == /\ \A t \in Threads : pc[t][1] > N => res[t] = Alone(t)
       /\ \A t \in Threads : \A i \in 1..Len(res[t]) : res[t][i] = Alone(t)[i]
       /\ InPlace \/ \A i \in 1..N : hd[i] = Fresh(cfg, i)              \* checking writes nothing
=================================================================================
