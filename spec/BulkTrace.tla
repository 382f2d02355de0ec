----------------------------- MODULE BulkTrace ------------------------------
(* Recorded dumps of large inputs.  packets: what the input consists of;    *)
(* whole: how many of them are complete (a damaged one, cut or broken, may  *)
(* follow).  around: text before and after an armor block, which changes    *)
(* nothing.  Every step explains one listed entry.                          *)
EXTENDS Bulk, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
NoInflate(a, b) == [st |-> "ok", data |-> <<>>]
VARIABLES trace, listed, session, phase
vars == <<trace, listed, session, phase>>
T == Traces[trace]
Init == trace \in DOMAIN Traces /\ listed = 0 /\ session = NoContext /\ phase = "run"
Reject(why, e) == /\ PrintT("REJECT " \o ToJson([trace |-> T.id, why |-> why, at |-> listed, expected |-> e]))
                  /\ phase' = "bad" /\ UNCHANGED <<trace, listed, session>>
Nothing == Leaf("", "", "")
Damaged == T.whole < Len(T.packets)
P == T.packets[listed + 1]
Explain == LET r == IF P.tag = 8 THEN Squeezed(P, session, T.opt) ELSE Bulky(P, session, T.opt)
               g == T.items[listed + 1] IN
  IF g = r.e THEN listed' = listed + 1 /\ session' = r.cx /\ UNCHANGED <<trace, phase>>
  ELSE IF P.tag = 8 /\ P.total >= Limit /\ g = Unexpanded(P) THEN listed' = listed + 1 /\ UNCHANGED <<trace, phase, session>>
  ELSE Reject("entry differs", r.e)
\* data that is passed through: as many octets, and the same
Passed == T.got.n = T.sent.n /\ T.got.sum = T.sent.sum
Next == /\ phase = "run"
        /\ IF T.out # "returned" THEN Reject("the dump did not return: " \o T.out, Nothing)
           ELSE IF T.raw THEN IF T.err THEN Reject("error for complete data", Nothing)
                              ELSE IF ~Passed THEN Reject("the data was not passed through", Nothing)
                              ELSE phase' = "done" /\ UNCHANGED <<trace, listed, session>>
           ELSE IF Damaged /\ ~T.err THEN Reject("damage not reported", Nothing)
           ELSE IF ~Damaged /\ T.err THEN Reject("error reported for a complete stream", Nothing)
           ELSE IF T.silent THEN phase' = "done" /\ UNCHANGED <<trace, listed, session>>
           ELSE IF listed = T.whole THEN IF Len(T.items) > listed THEN Reject("entry for a packet that is not there", Nothing)
                                         ELSE phase' = "done" /\ UNCHANGED <<trace, listed, session>>
           ELSE IF Len(T.items) <= listed THEN Reject("packet not listed", Nothing)
           ELSE Explain
Spec == Init /\ [][Next]_vars
Accepted == phase # "bad"
=============================================================================
