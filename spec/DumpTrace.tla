----------------------------- MODULE DumpTrace ------------------------------
(* Validation of recorded dumps.  Each trace holds one input, the options,  *)
(* and what the real dumper returned: the listed entries and whether it     *)
(* reported an error.  The dumper is a loop over packets; one Packet step   *)
(* of the specification consumes one packet of the input and must explain   *)
(* the next listed entry.  A trace is accepted when it ends in EndOfStream  *)
(* or Damage with nothing left over.                                        *)
EXTENDS Judge, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Table == ndJsonDeserialize(IOEnv.INFLATE)      \* decompression results, from an independent run
Prop == IOEnv.PROP

InflateImpl(a, b) ==
  LET hits == {i \in DOMAIN Table : Table[i].a = a /\ Table[i].b = b} IN
  IF Assert(hits # {}, "decompression table incomplete") THEN
  LET h == CHOOSE i \in hits : TRUE IN [st |-> Table[h].st, data |-> Table[h].data]
  ELSE [st |-> "err", data |-> <<>>]

VARIABLES trace,   \* which trace
          offset,     \* octets of the input consumed
          session,      \* session context, never logged: inferred by the specification
          listed,       \* entries explained
          phase       \* "run", "done", "bad"
vars == <<trace, offset, session, listed, phase>>

T == Traces[trace]
Init == trace \in DOMAIN Traces /\ offset = 0 /\ session = NoContext /\ listed = 0 /\ phase = "run"

Stop(s) == phase' = s /\ UNCHANGED <<trace, offset, session, listed>>
Reject(why, e) ==
  /\ PrintT("REJECT " \o ToJson([trace |-> T.id, at |-> offset, entry |-> listed + 1, why |-> why, expected |-> e]))
  /\ Stop("bad")
NoE == E("", "", "", NoDump, <<>>)

\* one packet explained by the next listed entry
Packet(u, r) ==
  /\ offset' = u.nxt /\ session' = r.cx /\ listed' = listed + 1
  /\ UNCHANGED <<trace, phase>>
EndOfStream ==
  IF Prop \in {"C02", "C03", "ALL"} /\ listed < Len(T.items) THEN Reject("entry for a packet that is not there", NoE)
  ELSE IF Prop \in {"C03", "ALL"} /\ T.err THEN Reject("error reported for a complete stream", NoE)
  ELSE Stop("done")
Damage(tag) ==
  IF ~JudgesDamage(Prop, tag) THEN Stop("done")
  ELSE IF ~T.err THEN Reject("damage not reported", NoE)
  ELSE IF listed # Len(T.items) THEN Reject("entry listed for a damaged packet", NoE)
  ELSE Stop("done")
NotListed(u, r) == IF Owns(Prop, u.tag) THEN Reject("packet not listed", r.e) ELSE Stop("done")

Step ==
  /\ phase = "run"
  /\ IF T.out # "returned" THEN Reject("the dump did not return: " \o T.out, NoE)
     ELSE IF Prop = "C16" /\ listed = 0 /\ T.ctl # <<>> THEN Reject("control characters in the output", NoE)
     ELSE LET u == PacketAt(T.data, offset) IN
          IF u.st = "eof" THEN EndOfStream
          ELSE IF u.st = "err" THEN Damage(-1)
          ELSE LET r == Decode(u.tag, u.body, session, T.opt) IN
               IF ~r.ok THEN Damage(u.tag)
               ELSE IF listed >= Len(T.items) THEN NotListed(u, r)
               ELSE IF ~Owns(Prop, u.tag) \/ Agrees(Prop, u.tag, r.e, T.items[listed + 1]) THEN Packet(u, r)
               ELSE Reject("entry differs", r.e)
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == phase # "bad"
\* the cursor over the stream only moves forward and stays inside the input
Inside == offset \in 0 .. Len(T.data) /\ listed <= Len(T.items)
Forward == [][offset' >= offset /\ listed' >= listed]_vars
=============================================================================
