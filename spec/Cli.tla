--------------------------------- MODULE Cli --------------------------------
(* C17, C24.  What one run of the command has to do, as a function of its   *)
(* arguments and its input alone.  There is no state: a process may run the *)
(* command any number of times and every run answers as if it was alone.    *)
EXTENDS Integers, Sequences, TLC

Commands == {"root", "version", "completion", "hkp", "github", "fetch", "bogus"}
Beyond == 2000000000        \* stands for an indent wider than any output can be
Net == {"hkp", "github", "fetch"}
Default(c) == [cmd |-> c, args |-> "right", flagerr |-> "no", src |-> "stdin", vflag |-> FALSE, data |-> "armored",
               net |-> "ok", raw |-> FALSE, json |-> FALSE, indent |-> 0, armor |-> FALSE, debug |-> FALSE, sink |-> "ok"]
\* the values each argument or circumstance can take
Choice(c) == [cmd |-> {c},
  args |-> CASE c = "root" -> {"right", "extra"} [] c = "version" -> {"right"} [] c = "completion" -> {"right", "none", "extra", "wrong"}
             [] c = "fetch" -> {"right", "none", "extra", "wrong"} [] c \in Net -> {"right", "none", "extra"} [] OTHER -> {"right"},
  flagerr |-> {"no", "unknown", "value"} \cup (IF c \in {"root", "hkp"} THEN {"conflict"} ELSE {}),
  src |-> IF c = "root" THEN {"stdin", "file", "missing", "dir", "clip"} ELSE {"stdin"},
  vflag |-> IF c = "root" THEN BOOLEAN ELSE {FALSE},
  data |-> IF c \in Net \cup {"root"} THEN {"armored", "binary", "damaged", "failing", "empty", "text", "large"} ELSE {"armored"},
  net |-> IF c \in Net THEN {"ok", "refused", "status"} ELSE {"ok"},
  raw |-> IF c \in Net THEN BOOLEAN ELSE {FALSE},
  json |-> BOOLEAN, indent |-> {0, 3, -2, Beyond}, armor |-> BOOLEAN, debug |-> BOOLEAN, sink |-> {"ok", "full"}]
Fields == {"args", "flagerr", "src", "vflag", "data", "net", "raw", "json", "indent", "armor", "debug", "sink"}

\* ---- what a run has to do: "dump", "raw", "version", "script", "fail", "any" ------
DumpOf(i) ==
  IF i.data = "failing" THEN "fail"
  ELSE IF i.raw THEN "raw"
  ELSE IF i.data \in {"damaged", "text"} THEN "fail"
  \* no octets at all are a stream of no packets, but no armored text
  ELSE IF i.data \in {"binary", "empty"} /\ (i.armor \/ i.src = "clip" \/ i.cmd \in {"hkp", "github"}) THEN "fail"
  \* an indent below zero is none; one that cannot be written is refused (or not noticed, without a line to indent)
  ELSE IF i.indent = Beyond THEN (IF i.data = "empty" THEN "any" ELSE "fail")
  ELSE "dump"
Wanted(i) ==
  IF i.flagerr \in {"unknown", "value"} \/ i.cmd = "bogus" THEN "fail"
  ELSE CASE i.cmd = "version" -> "version"
         [] i.cmd = "completion" -> IF i.args \in {"right", "none"} THEN "script" ELSE "fail"
         [] i.cmd = "root" ->
              IF i.vflag THEN (IF i.flagerr = "no" /\ i.args = "right" THEN "version" ELSE "any")
              ELSE IF i.args = "extra" \/ i.flagerr = "conflict" \/ i.src \in {"missing", "dir"} THEN "fail"
              \* a regular file does not fail while it is read
              ELSE IF i.src = "file" /\ i.data = "failing" THEN "any"
              ELSE DumpOf(i)
         [] OTHER ->
              IF i.args # "right" \/ i.flagerr = "conflict" \/ i.net # "ok" THEN "fail"
              ELSE DumpOf(i)
Outcome(i) ==
  LET w == Wanted(i) IN
  IF w \in {"dump", "raw", "script"} /\ i.sink = "full" THEN (IF i.debug \/ i.data = "empty" THEN "any" ELSE "fail")   \* nothing to write need not fail
  ELSE IF w = "version" /\ i.sink = "full" THEN "any"
  ELSE IF w = "fail" /\ i.debug THEN "any"          \* failures are reported on standard output then
  ELSE w
Partial(i) == i.raw \/ i.sink = "full"              \* output may have begun before the failure
=============================================================================
