---------------------------- MODULE KeyServerTrace --------------------------
(* C19.  Recorded lookups: the requests that reached the network and the    *)
(* result handed to the caller.                                             *)
EXTENDS KeyServer, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES trace, at, phase
vars == <<trace, at, phase>>
T == Traces[trace]
Init == trace \in DOMAIN Traces /\ at = 1 /\ phase = "run"
Reject(why) == PrintT("REJECT " \o ToJson([trace |-> T.id, why |-> why])) /\ phase' = "bad" /\ UNCHANGED <<trace, at>>
Send == /\ at <= Len(T.reqs)
        /\ IF at > 1 THEN Reject("more than one request")
           ELSE IF ~Right(T.reqs[at], T) THEN Reject("not the request for this lookup")
           ELSE at' = at + 1 /\ UNCHANGED <<trace, phase>>
Result == /\ at > Len(T.reqs)
          /\ IF T.out # "returned" THEN Reject("the lookup did not return: " \o T.out)
             ELSE IF at = 1 THEN Reject("no request")
             ELSE IF Succeeds(T.answer) THEN
               (IF T.err THEN Reject("error for a good answer")
                ELSE IF T.data # T.body THEN Reject("the body was changed")
                ELSE phase' = "done" /\ UNCHANGED <<trace, at>>)
             ELSE IF ~T.err THEN Reject("failure not reported")
             ELSE phase' = "done" /\ UNCHANGED <<trace, at>>
Next == phase = "run" /\ (Send \/ Result)
Spec == Init /\ [][Next]_vars
Accepted == phase # "bad"
=============================================================================
