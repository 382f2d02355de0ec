----------------------------- MODULE SessionRuns ----------------------------
(* C21.  All interleavings of N dumps.  MODE "packets": the packets of the  *)
(* dumps interleave too; every dump must show what it shows alone.  MODE    *)
(* "calls": every interleaving of the calls is emitted for replay ("fine":  *)
(* with the creation of a dumper in two parts).                             *)
EXTENDS Sessions, TLC, Json, IOUtils

N == atoi(IOEnv.N)
Packets == IOEnv.MODE = "packets"
Fine == IOEnv.MODE # "coarse"
Few == {"pub", "enc", "key", "kexp", "bad"}
Some == Few \cup {"sym", "sexp", "keyexp", "armored"}
Choice == CASE IOEnv.KINDS = "few" -> Few [] IOEnv.KINDS = "some" -> Some [] OTHER -> Kinds
CtxChoice == IF IOEnv.CTX = "mixed" THEN {"shared", "none"} ELSE {"shared"}

VARIABLES dumps, sched, options
vars == <<dumps, sched, options>>
Init == /\ dumps \in [1 .. N -> [kind : Choice, ctx : CtxChoice, st : {"idle"}, left : {<<>>}, mem : {Memory0}, out : {<<>>}]]
        /\ sched = <<>> /\ options = "as given"
Say(i, op) == sched' = IF Packets THEN <<>> ELSE Append(sched, [s |-> i, op |-> op])
Open(i) == /\ Fine /\ dumps[i].st = "idle" /\ Say(i, "open")
           /\ dumps' = [dumps EXCEPT ![i].st = "open"] /\ UNCHANGED options
Made(i) == /\ dumps[i].st = (IF Fine THEN "open" ELSE "idle") /\ Say(i, "made")
           /\ dumps' = [dumps EXCEPT ![i].st = "made", ![i].left = Inputs[dumps[i].kind]] /\ UNCHANGED options
Packet(i) ==
  /\ Packets /\ dumps[i].st = "made" /\ Say(i, "packet") /\ UNCHANGED options
  /\ LET d == dumps[i] IN
     dumps' = [dumps EXCEPT ![i] = IF d.left = <<>> THEN [d EXCEPT !.st = "done"]
       ELSE [d EXCEPT !.left = Tail(@), !.mem = Step(d.mem, Head(d.left)), !.out = Append(@, Shown(d.mem, Head(d.left)))]]
Parse(i) ==
  /\ ~Packets /\ dumps[i].st = "made" /\ Say(i, "parse") /\ UNCHANGED options
  /\ dumps' = [dumps EXCEPT ![i].st = "done", ![i].out = Dumped(dumps[i].mem, dumps[i].left), ![i].left = <<>>]
Next == \E i \in 1 .. N : Open(i) \/ Made(i) \/ Packet(i) \/ Parse(i)
Spec == Init /\ [][Next]_vars
AllDone == \A i \in 1 .. N : dumps[i].st = "done"
Emit == Packets \/ ~AllDone \/ PrintT("RUN " \o ToJson([dumps |-> [i \in 1 .. N |-> [kind |-> dumps[i].kind, ctx |-> dumps[i].ctx]], sched |-> sched]))
Independent == \A i \in 1 .. N : dumps[i].st = "done" => dumps[i].out = Alone(dumps[i].kind)
Options == options = "as given"
=============================================================================
