------------------------------ MODULE NetTrace ------------------------------
(* C24.  Recorded network commands.  body: the data that was served; local: *)
(* the root command on the same data and options (armor-only where the      *)
(* command forces it).  kind "any": data of no particular class, judged     *)
(* against the local dump alone.                                            *)
EXTENDS Cli, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES trace, phase
vars == <<trace, phase>>
T == Traces[trace]
I == T.inv
Init == trace \in DOMAIN Traces /\ phase = "run"
Reject(why) == PrintT("REJECT " \o ToJson([trace |-> T.id, why |-> why])) /\ phase' = "bad" /\ UNCHANGED trace
Whole == I.net = "ok" /\ I.data # "failing"
Want == IF ~Whole THEN "fail"
        ELSE IF I.raw THEN "raw"
        ELSE IF T.local.code = 0 /\ ~(I.debug /\ T.localbad) THEN "dump" ELSE "fail"
Next == /\ phase = "run"
        /\ IF T.out # "returned" THEN Reject("the run did not return: " \o T.out)
           ELSE IF I.data # "any" /\ Wanted(I) # Want THEN Reject("the local dump is not what the specification expects: " \o Wanted(I))
           ELSE IF Want # "fail" /\ I.cmd = "fetch" /\ (T.asked = <<>> \/ \E k \in DOMAIN T.asked : T.asked[k] # "GET " \o T.given)
                THEN Reject("not the given URL was requested")
           ELSE IF Want = "raw" /\ (T.code # 0 \/ T.stdout # T.body) THEN Reject("the data was not passed through")
           ELSE IF Want = "dump" /\ (T.code # 0 \/ T.stdout # T.local.stdout) THEN Reject("not the dump of the same data")
           ELSE IF Want = "fail" /\ ~I.debug /\ T.code = 0 THEN Reject("success of a run that has to fail")
           ELSE IF Want = "fail" /\ ~I.debug /\ ~I.raw /\ T.stdout # "" THEN Reject("a dump after a failure")
           ELSE phase' = "done" /\ UNCHANGED trace
Spec == Init /\ [][Next]_vars
Accepted == phase # "bad"
=============================================================================
