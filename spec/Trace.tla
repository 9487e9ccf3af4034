---------------------------------- MODULE Trace ----------------------------------
(* Trace validation: every recorded history has to be a behaviour of Engine.      *)
EXTENDS Engine, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, i, st, bad
vars == <<h, i, st, bad>>

Init == /\ h \in 1..Len(Log)
        /\ i = 0 /\ st = Init0 /\ bad = FALSE
Next == /\ ~bad /\ i < Len(Log[h].ev)
        /\ i' = i + 1 /\ h' = h
        /\ LET j == JudgeEvent(st, Log[h].ev[i + 1])
           IN /\ st' = j.st
              /\ bad' = (j.bad # <<>>)
              /\ j.bad # <<>> => PrintT("@@MISMATCH " \o ToString(h) \o " " \o ToString(i + 1) \o " " \o Join(j.bad, ","))
Spec == Init /\ [][Next]_vars
=================================================================================
