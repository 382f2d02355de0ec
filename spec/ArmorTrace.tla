----------------------------- MODULE ArmorTrace -----------------------------
(* C14.  Recorded dumps of armored documents: one step per run; the octets  *)
(* of the document are decoded by the specification.                        *)
EXTENDS Armor, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES trace, run, phase
vars == <<trace, run, phase>>
T == Traces[trace]
Init == trace \in DOMAIN Traces /\ run = 1 /\ phase = "run"

Reject(why) == PrintT("REJECT " \o ToJson([trace |-> T.id, why |-> why, run |-> T.runs[run]])) /\ phase' = "bad" /\ UNCHANGED run
Accept == run' = run + 1 /\ UNCHANGED phase
\* the binary form of the same packets, dumped by the same code
SameDump(r) == IF T.binerr THEN r.err /\ (r.via = "api" => r.text = T.bintext)
               ELSE ~r.err /\ r.text = T.bintext
Judged(r) ==
  LET v == Verdict(T.data, r.armor) IN
  IF ~Assert(T.want = "any" \/ v.v = T.want \/ (v.v = "silent" /\ ~r.armor), "generator and specification disagree") THEN FALSE
  ELSE IF r.out # "returned" THEN Reject("the dump did not return: " \o r.out)
  ELSE IF v.v = "payload" /\ v.data = T.payload /\ ~SameDump(r) THEN Reject("armored and binary dumps differ")
  ELSE IF v.v = "error" /\ ~r.err THEN Reject("no error for a damaged or missing armor block")
  ELSE IF v.v = "short" /\ ~r.err THEN Reject("[armor-short-checksum] a checksum of one or two octets is ignored")
  ELSE Accept
Next == phase = "run" /\ run <= Len(T.runs) /\ UNCHANGED trace /\ Judged(T.runs[run])
Spec == Init /\ [][Next]_vars
Accepted == phase # "bad"
=============================================================================
