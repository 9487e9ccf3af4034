-------------------------------- MODULE MC_Shape --------------------------------
(* Conditions of every kind on documents of every small shape, also unexpected ones: *)
(* the calls only have to return. The texts of the rules are written here.      *)
EXTENDS Small

Attrs1 == <<"jsonpath:$.a", "jsonpath:$.a[0]", "jsonpath:$.a.b", "jsonpath:$..a", "jsonpath:$.a[0].b[1]", "jsonpath:$RELATIVE", "jsonpath:$RELATIVE.a", "jsonpath:$KEY",
            "jsonpath:$VALUE", "jsonpath:$VALUE.a", "jsonpath:$", "jsonpath:", "jsonpath:$.", "jsonpath:$.a[", "senderLabel[a]", "receiverLabel[a]", "senderLabel[",
            "$sender.namespace", "$sender.labels", "$", "payloadSize", "encryptionVersion", "utcHoursFromMidnight", "">>
Methods1 == IF Deep2 THEN <<"EQ", "NEQ", "GE", "LT", "EX", "NEX", "RE", "NRE", "IN", "NIN", "IS", "ge", "XX", "">> ELSE <<"EQ", "NEQ", "GE", "NEX", "NRE", "IN", "IS">>
Values1 == IF Deep2 THEN <<"1", "", "abc", "$receiver.namespace", "receiverLabel[a]", "jsonpath:$.a", "#x", "[a,b]", "(", "1Ki">> ELSE <<"1", "$receiver.namespace", "receiverLabel[a]">>
Wraps == <<"plain", "not", "any", "all", "any any", "any return", "or any", "empty">>
Cases == Flat1(Len(Attrs1), LAMBDA a : Flat1(Len(Methods1), LAMBDA m : Seq1(Len(Values1), LAMBDA v : <<a, m, v>>)))
Q == "\""
Leaf(y) == "{\"attribute\": " \o Q \o Attrs1[y[1]] \o Q \o ", \"method\": " \o Q \o Methods1[y[2]] \o Q \o ", \"value\": " \o Q \o Values1[y[3]] \o Q \o "}"
Around(kind, parent, ret, c) == "{\"" \o kind \o "\": {\"parentJsonpathAttribute\": " \o Q \o parent \o Q \o ", " \o ret \o "\"condition\": " \o c \o "}}"
R == "\"returnValueJsonpath\": {\"x\": \"jsonpath:$RELATIVE.a\", \"y\": \"jsonpath:$KEY\", \"z\": \"jsonpath:$.a\"}, "
Cond1(w, c) == CASE w = "plain" -> c
                 [] w = "not" -> "{\"NOT\": " \o c \o "}"
                 [] w = "any" -> Around("ANY", "jsonpath:$.a", "", c)
                 [] w = "all" -> Around("ALL", "jsonpath:$", "", c)
                 [] w = "any any" -> Around("ANY", "jsonpath:$.a[:]", "", Around("ALL", "jsonpath:$RELATIVE.a", "", c))
                 [] w = "any return" -> Around("ANY", "jsonpath:$.a, jsonpath:$.b", R, c)
                 [] w = "or any" -> "{\"OR\": [" \o c \o ", " \o Around("ANY", "jsonpath:$RELATIVE", R, c) \o "]}"
                 [] OTHER -> "{\"AND\": [" \o c \o ", {\"OR\": []}]}"
RuleText(c) == "{\"rules\": [{\"ruleID\": \"1\", \"sender\": {\"senderName\": \"*\", \"senderType\": \"*\"}, \"receiver\": {\"receiverName\": \"*\", \"receiverType\": \"*\"}, \"protocol\": \"*\", \"resource\": {\"resourceType\": \"*\", \"resourceName\": \"*\"}, \"operation\": \"*\", \"decision\": \"block\", \"conditions\": " \o c \o "}]}"
Docs1 == <<"", "null", "5", "true", "\"x\"", "{", "[]", "{}", "[1]", "[null]", "[[1],[2]]", "[{\"a\":1}]", "{\"a\":null}", "{\"a\":1}", "{\"a\":\"\"}", "{\"a\":[]}", "{\"a\":{}}", "{\"a\":[null]}",
           "{\"a\":[1,\"x\",null,{\"a\":2}]}", "{\"a\":[[1,[2]]]}", "{\"a\":{\"a\":{\"b\":[1,2]}}}", "{\"a\":[{\"a\":[{\"a\":1}]},{\"a\":{\"a\":1}},{\"b\":5}]}", "{\"b\":[{\"a\":1}]}", "{\"a\":{\"b\":{}}}">>
\* inside the domain the specification says what loads; it has an answer for every text here
Law(y) == IsErr(Conditions(C3(Attrs1[y[1]], Methods1[y[2]], Values1[y[3]]), "yaml")) \in BOOLEAN
Title(y) == "shapes " \o ToString(y)
History(y) == Seq1(Len(Wraps), LAMBDA w : [op |-> "crash", kind |-> "rules", text |-> RuleText(Cond1(Wraps[w], Leaf(y))), docs |-> Docs1])

VARIABLES x, done
Init == /\ LET all == TLCEval(Cases) IN \E i \in 1..Len(all) : x = all[i]
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ Emit(Title(x), TLCEval(History(x)))
Spec == Init /\ [][Next]_<<x, done>>
Inv == done => Law(x)
=================================================================================
