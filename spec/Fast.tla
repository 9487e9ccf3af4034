---------------------------------- MODULE Fast ----------------------------------
(* Searching and replacing in texts, by the operators TLC evaluates natively.     *)
LOCAL INSTANCE SequencesExt

Occurs(s, p) == p = "" \/ ReplaceFirstSubSeq("", p, s) # s
Exchange(s, p, q) == IF p = "" THEN s ELSE ReplaceAllSubSeqs(q, p, s)
=================================================================================
