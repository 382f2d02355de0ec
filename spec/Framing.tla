------------------------------ MODULE Framing -------------------------------
(* Packet headers (old and new format, partial lengths) and subpacket       *)
(* headers: where the next unit starts, ends, and whether it is complete.   *)
EXTENDS Octets

\* result of looking for a unit: st \in {"eof", "err", "ok"}
None == [st |-> "eof", tag |-> 0, body |-> <<>>, nxt |-> 0]
Bad == [st |-> "err", tag |-> 0, body |-> <<>>, nxt |-> 0]
Unit(tag, body, nxt) == [st |-> "ok", tag |-> tag, body |-> body, nxt |-> nxt]

Whole(s, tag, from, n) ==          \* body of n octets after the first `from` octets
  IF from + n > Len(s) THEN Bad ELSE Unit(tag, SubSeq(s, from + 1, from + n), from + n)

\* new-format length at offset p: <<kind, length, octets used>>
NewLen(s, p) ==
  IF p >= Len(s) THEN <<"err", 0, 0>>
  ELSE LET b == s[p + 1] IN
    IF b < 192 THEN <<"full", b, 1>>
    ELSE IF b < 224 THEN IF p + 2 > Len(s) THEN <<"err", 0, 0>>
                         ELSE <<"full", (b - 192) * 256 + s[p + 2] + 192, 2>>
    ELSE IF b < 255 THEN <<"part", IF b - 224 >= 24 THEN Huge ELSE 2 ^ (b - 224), 1>>
    ELSE IF p + 5 > Len(s) THEN <<"err", 0, 0>> ELSE <<"full", U32(s, p + 2), 5>>

RECURSIVE Chunks(_, _, _, _)
Chunks(s, tag, p, acc) ==          \* chain of partial bodies, ended by a full length
  LET l == NewLen(s, p) IN
  IF l[1] = "err" THEN Bad
  ELSE LET from == p + l[3] IN
       IF from + l[2] > Len(s) THEN Bad
       ELSE LET a == acc \o SubSeq(s, from + 1, from + l[2]) IN
            IF l[1] = "full" THEN Unit(tag, a, from + l[2]) ELSE Chunks(s, tag, from + l[2], a)

\* the packet that starts after the first p octets of s
PacketAt(s, p) ==
  IF p >= Len(s) THEN None
  ELSE LET b == s[p + 1] IN
    IF b < 128 THEN Bad
    ELSE IF b >= 192 THEN Chunks(s, b - 192, p + 1, <<>>)
    ELSE LET tag == (b % 64) \div 4
             lt == b % 4
         IN CASE lt = 0 -> IF p + 2 > Len(s) THEN Bad ELSE Whole(s, tag, p + 2, s[p + 2])
              [] lt = 1 -> IF p + 3 > Len(s) THEN Bad ELSE Whole(s, tag, p + 3, U16(s, p + 2))
              [] lt = 2 -> IF p + 5 > Len(s) THEN Bad ELSE Whole(s, tag, p + 5, U32(s, p + 2))
              [] lt = 3 -> Whole(s, tag, p + 1, Len(s) - p - 1)

\* the subpacket that starts after the first p octets of area a
SubpacketAt(a, p) ==
  IF p >= Len(a) THEN None
  ELSE LET b == a[p + 1]
           h == IF b < 192 THEN 1 ELSE IF b < 255 THEN 2 ELSE 5
       IN IF p + h + 1 > Len(a) THEN Bad
          ELSE LET n == IF h = 1 THEN b ELSE IF h = 2 THEN (b - 192) * 256 + a[p + 2] + 192 ELSE U32(a, p + 2)
               IN IF n = 0 \/ p + h + n > Len(a) THEN Bad
                  ELSE Unit(a[p + h + 1], SubSeq(a, p + h + 2, p + h + n), p + h + n)

RECURSIVE Subpackets_(_, _, _)
Subpackets_(a, p, acc) ==
  LET u == SubpacketAt(a, p) IN
  IF u.st = "eof" THEN [ok |-> TRUE, subs |-> acc]
  ELSE IF u.st = "err" THEN [ok |-> FALSE, subs |-> acc]
  ELSE Subpackets_(a, u.nxt, Append(acc, [t |-> u.tag, b |-> u.body]))
Subpackets(a) == Subpackets_(a, 0, <<>>)
=============================================================================
