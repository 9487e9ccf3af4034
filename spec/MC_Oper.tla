--------------------------------- MODULE MC_Oper --------------------------------
(* Every operation text against every method, over words close to the classes.  *)
EXTENDS Small

Words == {"GET", "HEAD", "OPTIONS", "TRACE", "read", "READ", "POST", "PUT", "DELETE", "write", "WRITE", "PATCH",
          "CONNECT", "get", "post", "Read", "Write", "GETX", "XGET", "PUTS", "INPUT", "DELETED", "HEADER", "reads",
          "GET,HEAD", "RE", "*", ""}
Ops == Words \cup {"*T", "GET,PUT", "read,POST", "write,GET", "READ,WRITE", "read*", "?ET", "DEL*", " read", "write "}
Cases == Ops
Ms == Listed(Words)
Law(o) == \A i \in 1..Len(Ms) :
            LET m == Ms[i] IN
            /\ o \in {"read", "READ"} => (OperationMatches(o, m) <=> m \in ReadMethods)
            /\ o \in {"write", "WRITE"} => (OperationMatches(o, m) <=> m \in WriteMethods)
            /\ OperationMatches("*", m)
            /\ ~(OperationMatches("read", m) /\ OperationMatches("write", m))
Title(o) == "operation " \o o
History(o) == <<Load("r", [Rule0 EXCEPT !.oper = o]), [op |-> "copy", h |-> "r", to |-> "q"]>>
              \o Flat1(Len(Ms), LAMBDA i : <<PutMsg("m", [Msg0 EXCEPT !.method = Ms[i]], "raw"), One("r", "m"), Check(<<"q">>, "m")>>)

VARIABLES x, done
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
