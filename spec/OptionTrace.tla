----------------------------- MODULE OptionTrace ----------------------------
(* C12.  Recorded histories of real option sets.  Every call records what   *)
(* the option set answers afterwards; a dump also what it showed.  Several  *)
(* option sets live at the same time and do not affect each other.          *)
EXTENDS Options, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES trace, at, ons, phase
vars == <<trace, at, ons, phase>>
T == Traces[trace]
Range(s) == {s[i] : i \in DOMAIN s}
Init == trace \in DOMAIN Traces /\ at = 1 /\ ons = <<>> /\ phase = "run"
Reject(why) == PrintT("REJECT " \o ToJson([trace |-> T.id, why |-> why, at |-> at, op |-> T.ops[at]]))
               /\ phase' = "bad" /\ UNCHANGED <<trace, at, ons>>
After(o) == CASE o.op = "new" -> Append(ons, SwitchAll({}, o.with))
              [] o.op = "set" -> [ons EXCEPT ![o.c] = Switch(@, o.name, o.flag)]
              [] OTHER -> ons
Next == /\ phase = "run" /\ at <= Len(T.ops)
        /\ LET o == T.ops[at] a == After(o) IN
           IF o.out # "returned" THEN Reject("call did not return: " \o o.out)
           ELSE IF \E c \in DOMAIN a : Range(o.get[c]) # a[c] THEN Reject("an option is set that should not be, or the reverse")
           ELSE IF \E c \in DOMAIN a : Range(o.acts[c]) # Effective(a[c]) THEN Reject("an option does not act as it is set")
           ELSE IF o.op = "dump" /\ [err |-> o.err, shows |-> Range(o.shows)] # Probe(a[o.c]) THEN Reject("the dump does not follow the options")
           ELSE ons' = a /\ at' = at + 1 /\ UNCHANGED <<trace, phase>>
Spec == Init /\ [][Next]_vars
Accepted == phase # "bad"
=============================================================================
