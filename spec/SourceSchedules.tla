--------------------------- MODULE SourceSchedules --------------------------
(* C15.  All ways to deliver UNITS pieces of data: chunk sizes, empty reads *)
(* (EMPTY at most), end of data or failure at every point, alone or with    *)
(* the last piece.  Every complete schedule is emitted and replayed.        *)
EXTENDS Source, Json, IOUtils

Units == atoi(IOEnv.UNITS)
Empty == atoi(IOEnv.EMPTY)
VARIABLES sched, left, reader, empties
vars == <<sched, left, reader, empties>>
Init == sched = <<>> /\ left = Units /\ reader = Reader0 /\ empties = 0
Answer(a) ==
  /\ reader.st = "reading" /\ Fits(a, left)
  /\ empties' = empties + (IF a.n = 0 /\ a.end = "no" THEN 1 ELSE 0)
  /\ empties' <= Empty
  /\ sched' = Append(sched, a) /\ left' = left - a.n /\ reader' = Collect(reader, a)
  /\ IF reader'.st = "reading" THEN TRUE ELSE PrintT("SCHED " \o ToJson(sched'))
Next == \E a \in Answers(left) : Answer(a)
Spec == Init /\ [][Next]_vars
\* a reader that was told of the end has everything; a failure is never taken for the end
Whole == reader.st = "complete" => reader.got = Units /\ \A i \in DOMAIN sched : sched[i].end # "err"
Conserved == reader.got + left = Units
=============================================================================
