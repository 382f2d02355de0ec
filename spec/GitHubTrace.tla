----------------------------- MODULE GitHubTrace ----------------------------
(* C18.  Recorded lookups: the requests the real client made, one step per  *)
(* request, and its result.  Page size and page number are taken from each  *)
(* request.  Without a key ID the whole key file is requested instead.      *)
EXTENDS GitHub, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES trace, at, client, phase
vars == <<trace, at, client, phase>>
T == Traces[trace]
Init == trace \in DOMAIN Traces /\ at = 1 /\ client = Client0 /\ phase = "run"
Reject(why) == /\ PrintT("REJECT " \o ToJson([trace |-> T.id, why |-> why, at |-> at, client |-> client]))
               /\ phase' = "bad" /\ UNCHANGED <<trace, at, client>>
R == T.reqs[at]
RightListing == R.method = "GET" /\ R.scheme = "https" /\ R.host = "api.github.com" /\ R.path = <<"users", T.user, "gpg_keys">>
RightFile == R.method = "GET" /\ R.scheme = "https" /\ R.host = "github.com" /\ R.path = <<T.user \o ".gpg">>
Request ==
  /\ at <= Len(T.reqs)
  /\ IF client.st # "searching" THEN Reject("a request after the lookup was decided")
     ELSE IF T.keyid THEN
       (IF ~RightListing THEN Reject("not a request for the listing of the user")
        ELSE IF R.page # client.page THEN Reject("not the next page")
        ELSE /\ client' = Answered(client, T.list, R.per) /\ at' = at + 1 /\ UNCHANGED <<trace, phase>>)
     ELSE (IF ~RightFile THEN Reject("not a request for the key file of the user")
           ELSE /\ client' = (IF FaultOf(T.list, 1) # "ok" THEN [client EXCEPT !.st = "error"] ELSE [client EXCEPT !.st = "found", !.text = T.body])
                /\ at' = at + 1 /\ UNCHANGED <<trace, phase>>)
Good == phase' = "done" /\ UNCHANGED <<trace, at, client>>
Finish ==
  /\ at > Len(T.reqs)
  /\ IF T.out # "returned" THEN Reject("the lookup did not return: " \o T.out)
     ELSE IF client.st = "searching" THEN Reject("the lookup stopped although a full page had no match")
     ELSE IF client.st = "found" THEN (IF T.err = "" /\ T.data = client.text THEN Good ELSE Reject("the key was listed but not returned"))
     ELSE IF T.err = "" \/ T.data # "" THEN Reject("no error for " \o client.st)
     ELSE IF client.st = "nokey" /\ T.err # "nokey" /\ T.via = "api" THEN Reject("absence not reported as no such key")
     ELSE Good
Next == phase = "run" /\ (Request \/ Finish)
Spec == Init /\ [][Next]_vars
Accepted == phase # "bad"
=============================================================================
