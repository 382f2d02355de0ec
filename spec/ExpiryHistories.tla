--------------------------- MODULE ExpiryHistories --------------------------
(* C10.  All streams of keys and signatures over a small alphabet of        *)
(* subpackets (creation times, signature and key expirations, embedded      *)
(* signatures, key blocks), up to PACKETS packets and SUBS subpackets.      *)
(* The dates shown by the operational reading (Packets, with its registers) *)
(* are compared with a declarative reading of the stream; every complete    *)
(* stream is emitted and replayed into the real dumper.                     *)
EXTENDS Packets, Json, IOUtils

MaxPackets == atoi(IOEnv.PACKETS)
MaxSubs == atoi(IOEnv.SUBS)
NoInflate(a, b) == [st |-> "err", data |-> <<>>]
Plain == [cert |-> FALSE, debug |-> FALSE, int |-> FALSE, literal |-> FALSE, marker |-> FALSE, private |-> FALSE,
          utc |-> TRUE, off |-> 0, shift |-> 0]

T1 == <<80, 0, 0, 1>>
T2 == <<90, 0, 0, 2>>
T3 == <<255, 255, 255, 0>>
T0 == <<0, 0, 0, 0>>
P1 == <<0, 1, 81, 128>>
P2 == <<255, 255, 255, 255>>
\* subpackets: c creation time, x signature expiration, k key expiration, e embedded signature, b key block with a key
C(t) == [k |-> "c", t |-> t, in |-> <<>>]
X(p) == [k |-> "x", t |-> p, in |-> <<>>]
K(p) == [k |-> "k", t |-> p, in |-> <<>>]
B(t) == [k |-> "b", t |-> t, in |-> <<>>]
Em(s) == [k |-> "e", t |-> T0, in |-> s]
Simple == {C(T1), C(T3), X(P1), X(P2), K(P1)}
Nested == {B(T2), Em(<<C(T2)>>), Em(<<X(P1)>>), Em(<<K(P1)>>), Em(<<C(T2), X(P1)>>), Em(<<K(P2), B(T1)>>)}
Subs == IF IOEnv.ALPHABET = "simple" THEN Simple \cup {C(T0)} ELSE IF IOEnv.ALPHABET = "wide" THEN Simple \cup Nested \cup {C(T0)}
        ELSE {C(T1), X(P1), K(P1), B(T2), Em(<<C(T2)>>), Em(<<X(P1)>>), Em(<<K(P1)>>), Em(<<C(T2), X(P1)>>)}
\* packets: key with creation time, signature with hashed subpackets h and unhashed subpackets u, other packet
Key(t, tag) == [k |-> "key", t |-> t, tag |-> tag, h |-> <<>>, u |-> <<>>]
Sgn(h, u) == [k |-> "sig", t |-> T0, tag |-> 2, h |-> h, u |-> u]
Other == [k |-> "other", t |-> T0, tag |-> 13, h |-> <<>>, u |-> <<>>]
Keys == {Key(T1, 6), Key(T2, 14), Key(T0, 5)}

\* ---- octets -----------------------------------------------------------------
P(tag, body) == <<192 + tag, Len(body)>> \o body
KeyBody(t) == <<4>> \o t \o <<99>>
KeyOctets(t, tag) == P(tag, KeyBody(t) \o (IF tag = 5 THEN <<0, 1, 2>> ELSE <<>>))
RECURSIVE AreaOctets(_), SigBody(_, _)
SigBody(h, u) == LET a == AreaOctets(h) b == AreaOctets(u) IN
  <<4, 24, 99, 8, 0, Len(a)>> \o a \o <<0, Len(b)>> \o b \o <<171, 205>>
SubOctets(s) ==
  LET body == CASE s.k = "c" -> <<2>> \o s.t [] s.k = "x" -> <<3>> \o s.t [] s.k = "k" -> <<9>> \o s.t
                [] s.k = "e" -> <<32>> \o SigBody(s.in, <<>>) [] s.k = "b" -> <<38, 0>> \o KeyOctets(s.t, 6)
  IN <<Len(body)>> \o body
AreaOctets(a) == FlattenSeq([i \in DOMAIN a |-> SubOctets(a[i])])
Octets(p) == IF p.k = "key" THEN KeyOctets(p.t, p.tag) ELSE IF p.k = "sig" THEN P(2, SigBody(p.h, p.u)) ELSE P(13, <<97>>)

\* ---- the declarative reading ---------------------------------------------------
\* flat event list with the level (signature) each event belongs to; a level is the path to its signature
RECURSIVE EventsOf(_, _)
EventsOf(a, path) == FlattenSeq([i \in DOMAIN a |->
  LET s == a[i] IN
  IF s.k = "e" THEN EventsOf(s.in, Append(path, i)) ELSE <<[k |-> s.k, t |-> s.t, lv |-> path]>>])
PacketEvents(p, i) == IF p.k = "key" THEN <<[k |-> "b", t |-> p.t, lv |-> <<i>>]>>
                      ELSE IF p.k = "sig" THEN EventsOf(p.h \o p.u, <<i>>) ELSE <<>>
EventList(h) == FlattenSeq([i \in DOMAIN h |-> PacketEvents(h[i], i)])
Latest(S) == CHOOSE x \in S : \A y \in S : y <= x
\* start of the period of event i: the creation time in the same signature, or the nearest key before; each is used once
StartOf(ev, i) ==
  LET same(j) == IF ev[i].k = "x" THEN ev[j].lv = ev[i].lv /\ ev[j].k = "c" ELSE ev[j].k = "b"
      used(j) == \E l \in j + 1 .. i - 1 : ev[l].k = ev[i].k /\ (ev[i].k = "k" \/ ev[l].lv = ev[i].lv)
      cand == {j \in 1 .. i - 1 : same(j)}
  IN IF cand = {} THEN T0 ELSE LET j == Latest(cand) IN IF used(j) THEN T0 ELSE ev[j].t
EndOf(ev, i) == LET s == StartOf(ev, i) IN
  IF s = T0 THEN "" ELSE Rfc3339(AddTime(TimeOf(s), TimeOf(ev[i].t)), 0)
DeclaredEnds(h) == LET ev == EventList(h)
                       at == SelectSeq([i \in DOMAIN ev |-> i], LAMBDA i : ev[i].k \in {"x", "k"})
                   IN [i \in DOMAIN at |-> EndOf(ev, at[i])]

\* ---- the behaviour -----------------------------------------------------------------
VARIABLES stream      \* the packets so far
vars == <<stream>>
Count(h) == FoldLeft(LAMBDA n, p : n + Len(p.h) + Len(p.u), 0, h)
Full(h) == Len(h) = MaxPackets /\ Count(h) = MaxSubs /\ h[Len(h)].k = "sig" /\ Len(h[Len(h)].h) + Len(h[Len(h)].u) > 0
Emit(h) == IF Full(h) THEN PrintT("CASE " \o ToJson(FlattenSeq([j \in DOMAIN h |-> Octets(h[j])]))) ELSE TRUE
Init == stream = <<>>
AddPacket(p) == Len(stream) < MaxPackets /\ stream' = Append(stream, p)
AddHashed(s) == /\ stream # <<>> /\ stream[Len(stream)].k = "sig" /\ stream[Len(stream)].u = <<>>
                /\ Count(stream) < MaxSubs /\ stream' = [stream EXCEPT ![Len(stream)].h = Append(@, s)]
AddUnhashed(s) == /\ stream # <<>> /\ stream[Len(stream)].k = "sig" /\ stream[Len(stream)].h # <<>>
                  /\ stream[Len(stream)].u = <<>>
                  /\ Count(stream) < MaxSubs /\ stream' = [stream EXCEPT ![Len(stream)].u = Append(@, s)]
Next == /\ \/ \E p \in Keys \cup {Sgn(<<>>, <<>>), Other} : AddPacket(p)
           \/ \E s \in Subs : AddHashed(s) \/ AddUnhashed(s)
        /\ Emit(stream')
Spec == Init /\ [][Next]_vars

\* ---- the operational reading ----------------------------------------------------------
Names4 == TLCEval({SubName(3), SubName(9)})
RECURSIVE Ends(_)
Ends(e) == (IF e.n \in Names4 THEN <<e.t>> ELSE <<>>) \o FlattenSeq([i \in DOMAIN e.c |-> Ends(e.c[i])])
DecodeStep(a, p) == LET u == PacketAt(Octets(p), 0)
                        r == Decode(u.tag, u.body, a.cx, Plain)
                    IN IF Assert(u.st = "ok" /\ u.nxt = Len(Octets(p)) /\ r.ok, "alphabet packet is damaged")
                       THEN [cx |-> r.cx, ends |-> a.ends \o Ends(r.e)] ELSE a
OperationalEnds(h) == FoldLeft(DecodeStep, [cx |-> NoContext, ends |-> <<>>], h).ends
OwnTimes == Len(stream) < MaxPackets \/ OperationalEnds(stream) = DeclaredEnds(stream)
=============================================================================
