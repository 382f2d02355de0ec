-------------------------- MODULE SessionHistories --------------------------
(* C09.  All histories of packets over a small alphabet, up to DEPTH.  The  *)
(* operational reading (Packets, which threads a session context through    *)
(* the packets) must show exactly the remarks of the declarative reading:   *)
(* an encrypted data packet is described by the last encrypted session key  *)
(* packet since the previous encrypted data packet.  Every complete history *)
(* is emitted and replayed into the real dumper.                            *)
EXTENDS Packets, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Core == IOEnv.ALPHABET = "core"
NoInflate(a, b) == [st |-> "err", data |-> <<>>]     \* the alphabet uses algorithm 0 only
Plain == [cert |-> FALSE, debug |-> FALSE, int |-> FALSE, literal |-> FALSE, marker |-> FALSE, private |-> FALSE,
          utc |-> TRUE, off |-> 0, shift |-> 0]

P(tag, body) == <<192 + tag, Len(body)>> \o body
KeyIdOctets == <<1, 2, 3, 4, 5, 6, 7, 8>>
Pkesk == P(1, <<3>> \o KeyIdOctets \o <<1, 0, 8, 255>>)
PkeskOdd == P(1, <<9>> \o KeyIdOctets \o <<99, 7>>)
Skesk == P(3, <<4, 7, 0, 8>>)
SkeskOdd == P(3, <<5, 7, 1, 0, 8>>)
Sed == P(9, <<1, 2, 3>>)
Seipd == P(18, <<1, 9, 9>>)
Sig(area) == P(2, <<4, 0, 99, 8, 0, Len(area)>> \o area \o <<0, 0, 171, 205>>)
KeyBlockOf(packets) == <<Len(packets) + 2, 38, 0>> \o packets
Sym(n, ev, o) == [n |-> n, ev |-> ev, o |-> o]
CoreAlphabet == <<
  Sym("pkesk", <<"pub">>, Pkesk), Sym("skesk", <<"sym">>, Skesk),
  Sym("sed", <<"data">>, Sed), Sym("seipd", <<"data">>, Seipd), Sym("user", <<>>, P(13, <<97>>)),
  Sym("mdc", <<>>, P(19, [i \in 1 .. 20 |-> i])) >>
WideAlphabet == CoreAlphabet \o <<
  Sym("pkesk-odd", <<"pub">>, PkeskOdd), Sym("skesk-v5", <<"sym">>, SkeskOdd),
  Sym("sed-empty", <<"data">>, P(9, <<>>)), Sym("seipd-empty", <<"data">>, P(18, <<>>)),
  Sym("aead", <<>>, P(20, <<1, 7, 1, 0>> \o [i \in 1 .. 16 |-> i])),
  Sym("literal", <<>>, P(11, <<98, 0, 0, 0, 0, 0, 7>>)), Sym("marker", <<>>, P(10, <<80, 71, 80>>)),
  Sym("ops", <<>>, P(4, <<3, 0, 8, 1>> \o KeyIdOctets \o <<1>>)), Sym("unknown", <<>>, P(40, <<5>>)),
  Sym("private", <<>>, P(60, <<1>>)), Sym("key", <<>>, P(6, <<4, 0, 0, 0, 1, 99>>)), Sym("sig", <<>>, Sig(<<>>)),
  Sym("attr", <<>>, P(17, <<2, 5, 5>>)), Sym("trust", <<>>, P(12, <<0>>)),
  Sym("comp[pkesk]", <<"pub">>, P(8, <<0>> \o Pkesk)), Sym("comp[skesk sed]", <<"sym", "data">>, P(8, <<0>> \o Skesk \o Sed)),
  Sym("comp[seipd]", <<"data">>, P(8, <<0>> \o Seipd)), Sym("comp[user]", <<>>, P(8, <<0>> \o P(13, <<97>>))),
  Sym("sig{keyblock[pkesk]}", <<"pub">>, Sig(KeyBlockOf(Pkesk))),
  Sym("sig{keyblock[sed]}", <<"data">>, Sig(KeyBlockOf(Sed))) >>
Alphabet == IF Core THEN CoreAlphabet ELSE WideAlphabet

VARIABLES history, session, remarks
vars == <<history, session, remarks>>

\* what an entry tree says about session keys, in display order
RECURSIVE Remarks(_)
Remarks(e) ==
  (IF e.n # "Encrypted data" THEN <<>>
   ELSE << IF e.v = ModeText("sym") \/ e.t = "plain text + MDC SHA1(20 bytes); " \o ModeText("sym") THEN "sym"
           ELSE IF e.v = ModeText("pub") \/ e.t = "plain text + MDC SHA1(20 bytes); " \o ModeText("pub") THEN "pub"
           ELSE "none" >>)
  \o FlattenSeq([i \in DOMAIN e.c |-> Remarks(e.c[i])])

Init == history = <<>> /\ session = NoContext /\ remarks = <<>>
Packet(i) ==
  LET u == PacketAt(Alphabet[i].o, 0)
      r == Decode(u.tag, u.body, session, Plain)
  IN /\ Assert(u.st = "ok" /\ u.nxt = Len(Alphabet[i].o) /\ r.ok, "alphabet packet is damaged")
     /\ history' = Append(history, i) /\ session' = r.cx /\ remarks' = remarks \o Remarks(r.e)
     /\ IF Len(history) + 1 < Depth THEN TRUE
        ELSE PrintT("CASE " \o ToJson(FlattenSeq([j \in DOMAIN history' |-> Alphabet[history'[j]].o])))
Next == Len(history) < Depth /\ \E i \in DOMAIN Alphabet : Packet(i)
Spec == Init /\ [][Next]_vars

\* the declarative reading
Events == FlattenSeq([j \in DOMAIN history |-> Alphabet[history[j]].ev])
SaidAt(i) == LET esk == {j \in 1 .. i - 1 : /\ Events[j] # "data"
                                            /\ \A l \in j + 1 .. i - 1 : Events[l] # "data"}
             IN IF esk = {} THEN "none" ELSE Events[CHOOSE j \in esk : \A l \in esk : l <= j]
Declared == LET at == SelectSeq([i \in DOMAIN Events |-> i], LAMBDA i : Events[i] = "data")
            IN [i \in DOMAIN at |-> SaidAt(at[i])]
LastSinceData == remarks = Declared
\* the register always holds what the next encrypted data packet will say
Register == session.mode = SaidAt(Len(Events) + 1)
=============================================================================
