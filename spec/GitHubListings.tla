---------------------------- MODULE GitHubListings --------------------------
(* C18.  All listings of up to N entries in pages of two, with up to two    *)
(* entries carrying the wanted ID (with or without text) and a fault at any *)
(* page.  The loop is compared with the direct reading; every listing is    *)
(* emitted and served to the real client in pages of its own size.          *)
EXTENDS GitHub, Json, IOUtils, FiniteSets

N == atoi(IOEnv.N)
Per == 2
FaultKinds == {"status", "refused", "garbage", "cut", "type", "trailing"}
M(at, has) == [at |-> at, has |-> has, text |-> "k" \o ToString(at)]
VARIABLES list, client, asked
vars == <<list, client, asked>>
Matches(n) == {<<>>} \cup {<<M(i, h)>> : i \in 1 .. n, h \in BOOLEAN}
              \cup {<<M(x[1], x[2]), M(x[3], x[4])>> : x \in {y \in (1 .. n) \X BOOLEAN \X (1 .. n) \X BOOLEAN : y[1] < y[3]}}
Faults(n) == {<<>>} \cup UNION {{[j \in 1 .. k |-> IF j = k THEN f ELSE "ok"] : f \in FaultKinds} : k \in 1 .. n \div Per + 1}
Init == /\ client = Client0 /\ asked = <<>>
        /\ \E n \in 0 .. N : \E m \in Matches(n), f \in Faults(n) : list = [n |-> n, match |-> m, fault |-> f]
        /\ PrintT("LIST " \o ToJson(list))
Request == /\ client.st = "searching"
           /\ asked' = Append(asked, client.page) /\ client' = Answered(client, list, Per) /\ UNCHANGED list
Spec == Init /\ [][Request]_vars /\ WF_vars(Request)

\* the direct reading
FirstAt == IF list.match = <<>> THEN 0 ELSE list.match[1].at
PageOf(i) == (i - 1) \div Per + 1
LastPage == IF FirstAt > 0 THEN PageOf(FirstAt) ELSE list.n \div Per + 1
Faulty == \E k \in 1 .. LastPage : FaultOf(list, k) # "ok"
Direct == IF Faulty THEN "error" ELSE IF FirstAt > 0 /\ list.match[1].has THEN "found" ELSE "nokey"
Agree == client.st = "searching" \/ (client.st = Direct /\ (client.st = "found" => client.text = list.match[1].text))
Once == asked = [i \in 1 .. Len(asked) |-> i] /\ Len(asked) <= LastPage
Ends == <>(client.st # "searching")
=============================================================================
