------------------------------- MODULE Options ------------------------------
(* C12.  An option set: which options were last switched on.  Setting an    *)
(* option by name (in any case) is setting it directly; unknown names and   *)
(* codes have no effect; debug implies every dump option, not the armor     *)
(* restriction nor UTC.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets

AllOptions == {"armor", "cert", "debug", "gdump", "int", "literal", "marker", "private", "utc"}
DumpOptions == {"cert", "gdump", "int", "literal", "marker", "private"}
Switch(on, name, flag) == IF name \notin AllOptions THEN on ELSE IF flag THEN on \cup {name} ELSE on \ {name}
RECURSIVE SwitchAll(_, _)
SwitchAll(on, calls) == IF calls = <<>> THEN on ELSE SwitchAll(Switch(on, calls[1].name, calls[1].flag), Tail(calls))
Effective(on) == on \cup (IF "debug" \in on THEN DumpOptions ELSE {})
\* what one dump of the probe stream (one of each kind of optional data, not armored) shows
Probe(on) == IF "armor" \in on THEN [err |-> TRUE, shows |-> {}]
             ELSE [err |-> FALSE, shows |-> Effective(on) \cap {"cert", "int", "literal", "marker", "private", "utc"}]
=============================================================================
