------------------------------ MODULE Sessions ------------------------------
(* C21.  Several dumps in one process that share one option set.  A dump is *)
(* opened (it begins to read its input), made (the dumper exists) and       *)
(* parsed, packet by packet.  What a packet shows depends on a memory (the  *)
(* last session key, the last key, the current signature): every dump has a *)
(* memory of its own, which starts empty, and nobody writes the option set. *)
EXTENDS Integers, Sequences

\* what the packets of each kind of input do: remember a session key (P public, S symmetric), show and forget it (E),
\* remember a key (K), a signature with a creation time (C), show a key expiration (X), a signature expiration (Y),
\* nothing (U), or end in damage (!)
Inputs == [ empty |-> <<>>, pub |-> <<"P">>, sym |-> <<"S">>, enc |-> <<"E">>, pubenc |-> <<"P", "E">>, symenc |-> <<"S", "E", "E">>,
            key |-> <<"K">>, sig |-> <<"C">>, kexp |-> <<"X">>, sexp |-> <<"Y">>, keyexp |-> <<"K", "C", "X">>, plain |-> <<"U", "U">>,
            armored |-> <<"K", "X">>, bad |-> <<"S", "K", "C", "!">> ]
Kinds == DOMAIN Inputs
Memory0 == [esk |-> "none", key |-> "none"]
Step(m, tok) ==
  CASE tok = "P" -> [m EXCEPT !.esk = "pub"]
    [] tok = "S" -> [m EXCEPT !.esk = "sym"]
    [] tok = "E" -> [m EXCEPT !.esk = "none"]
    [] tok = "K" -> [m EXCEPT !.key = "known"]
    [] OTHER -> m
Shown(m, tok) ==
  CASE tok = "E" -> <<"data", m.esk>>
    [] tok = "X" -> <<"key expires", m.key>>
    [] tok = "Y" -> <<"signature expires", "none">>
    [] tok = "!" -> <<"error", "">>
    [] OTHER -> <<tok, "">>
RECURSIVE Dumped(_, _)
Dumped(m, toks) == IF toks = <<>> THEN <<>> ELSE <<Shown(m, Head(toks))>> \o Dumped(Step(m, Head(toks)), Tail(toks))
Alone(kind) == Dumped(Memory0, Inputs[kind])
=============================================================================
