------------------------------- MODULE GitHub -------------------------------
(* C18.  Looking a key up in a paged listing.  A listing has n entries;     *)
(* match is the sequence of those carrying the wanted key ID, in order:     *)
(* [at, has, text].  fault[k] tells how the answer to page k goes wrong.    *)
(* The client is a loop: one request per page.                              *)
EXTENDS Integers, Sequences, TLC

Client0 == [page |-> 1, st |-> "searching", text |-> ""]
InPage(l, k, per) == SelectSeq(l.match, LAMBDA m : m.at > (k - 1) * per /\ m.at <= k * per)
Full(l, k, per) == k * per <= l.n
FaultOf(l, k) == IF k \in DOMAIN l.fault THEN l.fault[k] ELSE "ok"
\* the answer to the request for the client's page, pages of per entries
Answered(c, l, per) ==
  LET m == InPage(l, c.page, per) IN
  IF FaultOf(l, c.page) # "ok" THEN [c EXCEPT !.st = "error"]
  ELSE IF m # <<>> THEN (IF m[1].has THEN [c EXCEPT !.st = "found", !.text = m[1].text] ELSE [c EXCEPT !.st = "nokey"])
  ELSE IF Full(l, c.page, per) THEN [c EXCEPT !.page = @ + 1]
  ELSE [c EXCEPT !.st = "nokey"]
=============================================================================
