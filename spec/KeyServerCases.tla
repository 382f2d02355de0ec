---------------------------- MODULE KeyServerCases --------------------------
(* C19.  The lookup as a protocol between client and server, for every      *)
(* combination of configuration, kind of user ID and answer; each is        *)
(* emitted and replayed.                                                    *)
EXTENDS KeyServer, Json, IOUtils

VARIABLES case, sent, result
vars == <<case, sent, result>>
Init == /\ sent = 0 /\ result = "pending"
        /\ case \in [host : Hosts, port : Ports, secure : BOOLEAN, user : Users, answer : Answers, via : Vias]
        /\ PrintT("CASE " \o ToJson(case))
Send == sent = 0 /\ sent' = 1 /\ UNCHANGED <<case, result>>
Reply == sent = 1 /\ result = "pending" /\ result' = (IF Succeeds(case.answer) THEN "body" ELSE "error") /\ UNCHANGED <<case, sent>>
Next == Send \/ Reply
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OneRequest == sent <= 1
Surfaces == (result = "body") => case.answer \notin {"refused", "status", "cut"}
Ends == <>(result # "pending")
=============================================================================
