---------------------------- MODULE SessionTrace ----------------------------
(* C21.  Recorded dumps that share an option set.  Every event is a call    *)
(* that returned; alone[k] is what the k-th dump's input gives in a process *)
(* of its own, opts the caller's option set as it was given.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES trace, at, st, phase
vars == <<trace, at, st, phase>>
T == Traces[trace]
Init == trace \in DOMAIN Traces /\ at = 1 /\ phase = "run" /\ st = [s \in DOMAIN T.alone |-> "idle"]
Reject(why) == PrintT("REJECT " \o ToJson([trace |-> T.id, why |-> why, at |-> at])) /\ phase' = "bad" /\ UNCHANGED <<trace, at, st>>
E == T.events[at]
Go(s) == st' = [st EXCEPT ![E.s] = s] /\ at' = at + 1 /\ UNCHANGED <<trace, phase>>
\* a dumper may already refuse its input when it is made
Same(a) == E.out = "returned" /\ E.err = a.err /\ E.text = a.text
Next == /\ phase = "run" /\ at <= Len(T.events)
        /\ IF E.opts # T.opts THEN Reject("the caller's option set changed")
           ELSE IF E.out # "returned" THEN Reject("the call did not return: " \o E.out)
           ELSE CASE E.op = "open" /\ st[E.s] = "idle" -> Go("open")
                  [] E.op = "made" /\ st[E.s] \in {"idle", "open"} -> Go("made")
                  [] E.op = "parse" /\ st[E.s] = "made" -> IF Same(T.alone[E.s]) THEN Go("done") ELSE Reject("the dump differs from the same dump alone")
                  [] OTHER -> Reject("the recording is not a sequence of dumps")
Spec == Init /\ [][Next]_vars
Accepted == phase # "bad"
=============================================================================
