--------------------------- MODULE OptionHistories --------------------------
(* C12.  All histories of DEPTH settings over an alphabet of options, each  *)
(* ended by a dump; replayed on real option sets.                           *)
EXTENDS Options, TLC, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Alphabet == IF IOEnv.ALPHABET = "all" THEN AllOptions \cup {"other"} ELSE {"debug", "literal", "utc"}
Hows == IF IOEnv.ALPHABET = "all" THEN {"code", "name"} ELSE {"code"}
VARIABLES calls, on
vars == <<calls, on>>
Init == calls = <<>> /\ on = {}
Next == /\ Len(calls) < Depth
        /\ \E n \in Alphabet, h \in Hows, f \in BOOLEAN :
             /\ calls' = Append(calls, [op |-> "set", name |-> n, how |-> h, flag |-> f])
             /\ on' = Switch(on, n, f)
        /\ IF Len(calls') < Depth THEN TRUE ELSE PrintT("HIST " \o ToJson(calls'))
Spec == Init /\ [][Next]_vars
\* only the last setting of each option counts
LastWins == \A n \in AllOptions :
  LET at == {i \in DOMAIN calls : calls[i].name = n}
  IN (n \in on) <=> (at # {} /\ calls[CHOOSE i \in at : \A j \in at : j <= i].flag)
Folded == SwitchAll({}, calls) = on
Implied == /\ ("debug" \in on => DumpOptions \subseteq Effective(on))
           /\ Effective(on) \cap {"armor", "utc"} = on \cap {"armor", "utc"}
=============================================================================
