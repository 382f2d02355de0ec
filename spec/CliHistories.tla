----------------------------- MODULE CliHistories ---------------------------
(* C17.  MODE "single": every invocation that deviates from the default in  *)
(* at most DEPTH arguments or circumstances.  MODE "history": all sequences *)
(* of DEPTH runs over a core alphabet, in one process.                      *)
EXTENDS Cli, Json, IOUtils, FiniteSets, SequencesExt

Depth == atoi(IOEnv.DEPTH)
Single == IOEnv.MODE = "single"
With(i, f, v) == [i EXCEPT ![f] = v]
D(c) == Default(c)
Core == <<
  D("root"), [D("root") EXCEPT !.data = "binary"], [D("root") EXCEPT !.data = "damaged"],
  [D("root") EXCEPT !.json = TRUE, !.indent = 3], [D("root") EXCEPT !.indent = 3], [D("root") EXCEPT !.indent = Beyond], [D("root") EXCEPT !.armor = TRUE, !.data = "binary"],
  [D("root") EXCEPT !.debug = TRUE, !.data = "damaged"], [D("root") EXCEPT !.debug = TRUE],
  [D("root") EXCEPT !.vflag = TRUE], [D("root") EXCEPT !.src = "file", !.data = "binary"], [D("root") EXCEPT !.flagerr = "conflict"],
  [D("root") EXCEPT !.src = "file", !.data = "empty"], [D("root") EXCEPT !.data = "large"],
  [D("root") EXCEPT !.flagerr = "unknown"], [D("root") EXCEPT !.src = "missing"], [D("root") EXCEPT !.src = "clip"],
  D("version"), D("completion"), [D("completion") EXCEPT !.args = "wrong"],
  D("hkp"), [D("hkp") EXCEPT !.raw = TRUE], [D("hkp") EXCEPT !.args = "none"], [D("github") EXCEPT !.json = TRUE],
  [D("fetch") EXCEPT !.data = "binary"], [D("fetch") EXCEPT !.net = "refused"] >>

VARIABLES runs, changed
vars == <<runs, changed>>
Init == /\ changed = {}
        /\ IF Single THEN \E c \in Commands : runs = <<D(c)>> ELSE runs = <<>>
Vary == /\ Single /\ Cardinality(changed) < Depth
        /\ \E f \in Fields \ changed : \E v \in Choice(runs[1].cmd)[f] :
             /\ v # runs[1][f] /\ runs' = <<With(runs[1], f, v)>> /\ changed' = changed \cup {f}
Run == /\ ~Single /\ Len(runs) < Depth /\ UNCHANGED changed
       /\ \E i \in DOMAIN Core : runs' = Append(runs, Core[i])
Next == Vary \/ Run
Spec == Init /\ [][Next]_vars
Emit == (~Single /\ Len(runs) < Depth) \/ PrintT("RUNS " \o ToJson(runs))

I == runs[Len(runs)]
Say == IF runs = <<>> THEN "any" ELSE Outcome(I)
\* conflicting or missing arguments, missing or damaged input: never a success
Rejected == (runs # <<>> /\ ~I.debug /\ ~I.vflag
             /\ (I.flagerr # "no" \/ I.args \in {"extra", "wrong"} \/ I.src \in {"missing", "dir"} \/ I.net # "ok"
                 \/ (I.args = "none" /\ I.cmd # "completion") \/ (I.data \in {"damaged", "failing", "text"} /\ ~I.raw /\ I.cmd \in Net \cup {"root"})))
            => Say \in {"fail", "any"} /\ (I.src # "file" => Say = "fail")
\* layout and time zone never decide between success and failure
Unwritable == (runs # <<>> /\ I.indent = Beyond) => Say \notin {"dump"}
LayoutFree == runs # <<>> => Outcome([I EXCEPT !.json = ~@]) = Say /\ (I.indent # Beyond => Outcome([I EXCEPT !.indent = 3 - @]) = Say)
\* armor-only mode only takes inputs away
ArmorRestricts == (runs # <<>> /\ I.armor /\ Say = "dump") => Outcome([I EXCEPT !.armor = FALSE]) = "dump"
=============================================================================
