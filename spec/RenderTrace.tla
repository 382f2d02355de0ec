----------------------------- MODULE RenderTrace ----------------------------
(* C13.  Recorded renderings of the real code: the tree, the text written   *)
(* for several indents, and the trees that the JSON outputs decode to.      *)
EXTENDS Render, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES trace, phase
vars == <<trace, phase>>
T == Traces[trace]

BadText == {i \in DOMAIN T.texts : T.texts[i].out # Text(T.es, T.texts[i].indent)}
BadCli == {i \in DOMAIN T.cli : T.cli[i].out # Text(T.es, IndentOf(T.cli[i].n))}
BadJson == {i \in DOMAIN T.jsons : LET j == T.jsons[i] IN
              ~j.valid \/ j.es # T.es \/ j.step # Layout(T.es, j.n)}
Reject(why, x) == PrintT("REJECT " \o ToJson([trace |-> T.id, why |-> why, got |-> x])) /\ phase' = "bad"
OneOf(S) == CHOOSE x \in S : TRUE
Init == trace \in DOMAIN Traces /\ phase = "run"
Step ==
  /\ phase = "run" /\ UNCHANGED trace
  /\ IF T.out # "returned" THEN Reject("rendering did not return: " \o T.out, "")
     ELSE IF BadText # {} THEN Reject("text form", T.texts[OneOf(BadText)])
     ELSE IF BadCli # {} THEN Reject("text form on the command line", T.cli[OneOf(BadCli)])
     ELSE IF BadJson # {} THEN Reject("JSON form", T.jsons[OneOf(BadJson)])
     ELSE phase' = "done"
Next == Step
Spec == Init /\ [][Next]_vars
Accepted == phase # "bad"
=============================================================================
