----------------------------- MODULE SourceTrace ----------------------------
(* C15.  Recorded dumps: what the source answered to each read of the real  *)
(* code, and what the dump was.  One step per answer.                       *)
EXTENDS Source, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES trace, at, reader, phase
vars == <<trace, at, reader, phase>>
T == Traces[trace]
Init == trace \in DOMAIN Traces /\ at = 1 /\ reader = Reader0 /\ phase = "run"
Reject(why) == /\ PrintT("REJECT " \o ToJson([trace |-> T.id, why |-> why]))
               /\ phase' = "bad" /\ UNCHANGED <<trace, at, reader>>
Read == /\ at <= Len(T.reads)
        /\ reader' = Collect(reader, T.reads[at]) /\ at' = at + 1 /\ UNCHANGED <<trace, phase>>
\* the dump of the same octets from memory
Same == IF T.binerr THEN T.err /\ (T.via = "api" => T.text = T.bintext)
        ELSE ~T.err /\ T.text = T.bintext
Finish == /\ at > Len(T.reads)
          /\ Assert(reader.got <= T.n, "more octets than there are")
          /\ IF T.out # "returned" THEN Reject("the dump did not return: " \o T.out)
             ELSE IF reader.st = "failed" THEN (IF T.err THEN phase' = "done" /\ UNCHANGED <<trace, at, reader>>
                                                ELSE Reject("a read error was not reported"))
             ELSE IF Same THEN phase' = "done" /\ UNCHANGED <<trace, at, reader>>
             ELSE Reject("the dump differs from the dump of the same octets in memory")
Next == phase = "run" /\ (Read \/ Finish)
Spec == Init /\ [][Next]_vars
Accepted == phase # "bad"
=============================================================================
