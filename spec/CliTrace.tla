------------------------------ MODULE CliTrace ------------------------------
(* C17.  Recorded runs of the command, several in one process; one step per *)
(* run.  want: the rendering of this run's input by the library.  alone:    *)
(* the same run in a process of its own, when it was recorded.              *)
EXTENDS Cli, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES trace, at, phase
vars == <<trace, at, phase>>
T == Traces[trace]
Init == trace \in DOMAIN Traces /\ at = 1 /\ phase = "run"
Reject(why) == PrintT("REJECT " \o ToJson([trace |-> T.id, why |-> why, at |-> at])) /\ phase' = "bad" /\ UNCHANGED <<trace, at>>
Next == /\ phase = "run" /\ at <= Len(T.runs)
        /\ LET r == T.runs[at] w == Outcome(r.inv) IN
           IF r.out # "returned" THEN Reject("the run did not return: " \o r.out)
           ELSE IF r.alone.has /\ (r.code # r.alone.code \/ r.stdout # r.alone.stdout \/ (r.stderr = "") # (r.alone.stderr = ""))
                THEN Reject("the run differs from the same run alone")
           ELSE IF w \in {"dump", "raw"} /\ (r.code # 0 \/ r.stdout # r.want) THEN Reject("not a success with exactly the expected output")
           ELSE IF w = "version" /\ (r.code # 0 \/ (r.stdout = "" /\ r.stderr = "")) THEN Reject("version not shown")
           ELSE IF w = "script" /\ (r.code # 0 \/ r.stdout = "") THEN Reject("completion script not written")
           ELSE IF w = "fail" /\ r.code = 0 THEN Reject("success of a run that has to fail")
           ELSE IF w = "fail" /\ r.stderr = "" THEN Reject("failure without a message")
           ELSE IF w = "fail" /\ ~Partial(r.inv) /\ r.stdout # "" THEN Reject("failure with output")
           ELSE at' = at + 1 /\ UNCHANGED <<trace, phase>>
Spec == Init /\ [][Next]_vars
Accepted == phase # "bad"
=============================================================================
