----------------------------- MODULE CursorTrace ----------------------------
(* C20.  Recorded operation histories of the real cursor; one step per      *)
(* operation.  The position is inferred, never read from the trace.  far:   *)
(* size of a buffer that is not written out (0: it is).                     *)
EXTENDS Cursor, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES trace, at, pos, phase
vars == <<trace, at, pos, phase>>
T == Traces[trace]
Init == trace \in DOMAIN Traces /\ at = 1 /\ pos = 0 /\ phase = "run"
SizeOf(t) == IF t.far > 0 THEN t.far ELSE Len(t.buf)
Reject(why) == PrintT("REJECT " \o ToJson([trace |-> T.id, why |-> why, at |-> at, pos |-> pos, op |-> T.ops[at]]))
               /\ phase' = "bad" /\ UNCHANGED <<trace, at, pos>>
Next == /\ phase = "run" /\ at <= Len(T.ops)
        /\ LET o == T.ops[at] n == SizeOf(T) r == IF T.far > 0 THEN DoFar(n, pos, o) ELSE Do(T.buf, pos, o) IN
           IF o.out # "returned" THEN Reject("operation did not return: " \o o.out)
           ELSE IF ~r.ok THEN Reject("answer not allowed at this position")
           ELSE IF o.rest # n - r.pos \/ o.size # n \/ o.len # n THEN Reject("remaining length or size wrong after the operation")
           ELSE pos' = r.pos /\ at' = at + 1 /\ UNCHANGED <<trace, phase>>
Spec == Init /\ [][Next]_vars
Accepted == phase # "bad"
Inside == pos \in 0 .. SizeOf(T)
=============================================================================
