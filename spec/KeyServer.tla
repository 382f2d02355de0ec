------------------------------ MODULE KeyServer -----------------------------
(* C19.  One lookup at a key server: one request, one answer.               *)
EXTENDS Integers, Sequences, TLC

Hosts == {"default", "name", "ip", "ip6"}
Ports == {"default", "low", "high"}
Users == {"word", "mail", "space", "special", "unicode", "bytes", "empty", "long"}
Answers == {"ok", "chunks", "refused", "status", "cut"}
Vias == {"api", "cli"}

\* r is the request a lookup of t has to make
Right(r, t) ==
  /\ r.method = "GET" /\ r.path = <<"pks", "lookup">>
  /\ r.scheme = (IF t.secure THEN "https" ELSE "http") /\ r.host = t.host /\ r.port = t.port
  /\ r.op = <<"get">> /\ r.search = <<t.user>> /\ r.extra = <<>>
Succeeds(answer) == answer \in {"ok", "chunks"}
=============================================================================
