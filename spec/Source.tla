------------------------------- MODULE Source -------------------------------
(* A source of octets: it hands out its data in pieces of any size, maybe   *)
(* empty ones, and ends with an end-of-data mark or a failure, either of    *)
(* which may come together with the last piece.  The reader collects.       *)
EXTENDS Integers, Sequences, TLC

\* one answer to a read: n octets and possibly an end
Answers(left) == [n : 0 .. left, end : {"no", "eof", "err"}]
Fits(a, left) == a.n <= left /\ (a.end = "eof" => a.n = left)     \* no end-of-data before the last octet

Reader0 == [got |-> 0, st |-> "reading"]
Collect(r, a) ==
  [got |-> r.got + a.n,
   st |-> IF r.st # "reading" THEN r.st
          ELSE IF a.end = "err" THEN "failed" ELSE IF a.end = "eof" THEN "complete" ELSE "reading"]
=============================================================================
