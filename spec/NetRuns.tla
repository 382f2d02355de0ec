------------------------------- MODULE NetRuns ------------------------------
(* C24.  Every combination of network command, answer and options, as the   *)
(* specification of the command line (Cli) sees it.  A dump of fetched data *)
(* is the dump the root command gives for the same data and options; the    *)
(* key server and GitHub commands force armor-only mode.                    *)
EXTENDS Cli, Json, IOUtils

Runs == {[Default(c) EXCEPT !.data = d, !.net = n, !.raw = r, !.json = j, !.indent = k, !.armor = a, !.debug = b] :
           c \in Net, d \in {"armored", "binary", "damaged", "failing"}, n \in {"ok", "refused", "status"},
           r \in BOOLEAN, j \in BOOLEAN, k \in {0, 3}, a \in BOOLEAN, b \in BOOLEAN}
VARIABLES run, st, result
vars == <<run, st, result>>
Init == run \in Runs /\ st = "asked" /\ result = "none" /\ PrintT("RUN " \o ToJson(run))
\* the request, the body, and what is made of it
Answer == st = "asked" /\ UNCHANGED run /\ (IF run.net # "ok" THEN st' = "done" /\ result' = "fail" ELSE st' = "body" /\ UNCHANGED result)
Body == st = "body" /\ UNCHANGED run /\ (IF run.data = "failing" THEN st' = "done" /\ result' = "fail" ELSE st' = "got" /\ UNCHANGED result)
\* the root command on the same data
Local == Wanted([Default("root") EXCEPT !.data = run.data, !.armor = run.armor \/ run.cmd # "fetch", !.debug = run.debug])
Made == st = "got" /\ st' = "done" /\ UNCHANGED run /\ result' = (IF run.raw THEN "raw" ELSE Local)
Next == Answer \/ Body \/ Made
Spec == Init /\ [][Next]_vars
\* step by step or at once: the same outcome
Agrees == st = "done" => result = Wanted(run)
=============================================================================
