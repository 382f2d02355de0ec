---------------------------- MODULE Compositions ----------------------------
(* Sequences of packets as they occur in practice: the grammar of RFC 4880, *)
(* section 11 (transferable keys, key rings, messages, detached             *)
(* signatures).  A state is a sentential form split into what has been      *)
(* written and what is still to be written; a step expands or writes the    *)
(* next symbol.  Every sentence of at most MAX packets is emitted; the      *)
(* harness turns it into octets with fields that refer to each other        *)
(* (issuers, fingerprints, algorithms, recipients), or fail to.             *)
EXTENDS Sequences, SequencesExt, FiniteSets, Integers, TLC, Json, IOUtils

Most == atoi(IOEnv.MAX)
Kind == IOEnv.KIND            \* "key", "secret" or "message"

Rules ==
  [Key |-> {<<"pk", "Direct", "Users", "Subs">>},
   Secret |-> {<<"sk", "Direct", "Users", "SecretSubs">>},
   Ring |-> {<<"pk", "trust", "User", "trust">>, <<"Key", "Key">>},
   Direct |-> {<<>>, <<"direct">>, <<"revocation">>, <<"revocation", "direct">>},
   Users |-> {<<"User">>, <<"User", "Users">>},
   User |-> {<<"uid", "Certs">>, <<"attribute", "Certs">>},
   Certs |-> {<<>>, <<"cert", "Certs">>, <<"certrevocation">>},
   Subs |-> {<<>>, <<"psub", "Bind", "Subs">>},
   SecretSubs |-> {<<>>, <<"ssub", "Bind", "SecretSubs">>},
   Bind |-> {<<"bind">>, <<"subrevocation", "bind">>},
   Message |-> {<<"Encrypted">>, <<"Signed">>, <<"(", "Message", ")">>, <<"literal">>, <<"marker", "Message">>},
   Encrypted |-> {<<"SessionKeys", "Data">>},
   SessionKeys |-> {<<>>, <<"pkesk", "SessionKeys">>, <<"skesk", "SessionKeys">>},
   Data |-> {<<"sed">>, <<"seipd">>, <<"aead">>},
   Signed |-> {<<"sig", "Message">>, <<"ops", "Message", "close">>},
   Detached |-> {<<"sig">>, <<"sig", "Detached">>}]
Nonterminals == DOMAIN Rules
Brackets == {"(", ")"}
\* packets a form has at least
Least == [n \in Nonterminals |-> CASE n \in {"Key", "Secret"} -> 2 [] n = "Ring" -> 4 [] n \in {"Direct", "Certs", "Subs", "SecretSubs", "SessionKeys"} -> 0
                                   [] n = "Signed" -> 2 [] OTHER -> 1]
Size(s) == FoldLeft(LAMBDA a, x : a + (IF x = ")" THEN 0 ELSE IF x \in Nonterminals THEN Least[x] ELSE 1), 0, s)
Starts == CASE Kind = "key" -> {<<"Key">>, <<"Ring">>} [] Kind = "secret" -> {<<"Secret">>} [] OTHER -> {<<"Message">>, <<"Detached">>}

VARIABLES written, rest
vars == <<written, rest>>
Init == written = <<>> /\ rest \in Starts
Expand == /\ rest # <<>> /\ Head(rest) \in Nonterminals
          /\ \E r \in Rules[Head(rest)] : rest' = r \o Tail(rest) /\ Size(written) + Size(rest') <= Most
          /\ UNCHANGED written
Write == /\ rest # <<>> /\ Head(rest) \notin Nonterminals
         /\ written' = Append(written, Head(rest)) /\ rest' = Tail(rest)
Next == (Expand \/ Write) /\ (IF rest' = <<>> THEN PrintT("CASE " \o ToJson(written')) ELSE TRUE)
Spec == Init /\ [][Next]_vars

\* ---- what the grammar promises, said without the grammar ---------------------------
CountOf(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Bounded == Size(written) + Size(rest) <= Most
Bracketed == CountOf(written, "(") - CountOf(written, ")") = CountOf(rest, ")") - CountOf(rest, "(")
OnePassClosed == CountOf(written, "ops") - CountOf(written, "close") = CountOf(rest, "close") - CountOf(rest, "ops")
Owner(i) == CASE written[i] \in {"bind", "subrevocation"} -> {"psub", "ssub", "subrevocation"}
              [] written[i] \in {"cert", "certrevocation"} -> {"uid", "attribute", "cert"}
              [] written[i] \in {"direct", "revocation"} -> {"pk", "sk", "revocation"}
              [] OTHER -> {}
Owned == \A i \in DOMAIN written : Owner(i) = {} \/ (i > 1 /\ written[i - 1] \in Owner(i))
Primary == Kind = "message" \/ written = <<>> \/ written[1] \in {"pk", "sk"}
Invariant == Bounded /\ Bracketed /\ OnePassClosed /\ Owned /\ Primary
=============================================================================
