------------------------------ MODULE Packets -------------------------------
(* What a dump shows for each packet body.  A body is consumed field by     *)
(* field by a cursor; each field yields one entry, and a field that runs    *)
(* past the end of its body makes the packet damaged.                       *)
(*                                                                          *)
(* entry   [n, v, t, d, c]: name, value, note, dump, children               *)
(* cursor  [b, p, its, err, cx, o, r]: body, octets consumed, entries so    *)
(*         far, damaged?, session context, options, scratch registers       *)
(* context [mode, sig, key]: kind of the last session key, creation time of *)
(*         the current signature and of the last key (<<>> when none)       *)
(* options [cert, debug, int, literal, marker, private, utc : BOOLEAN,      *)
(*         off : minutes east of UTC of the local zone, shift : see Zone]   *)
EXTENDS Octets, Names, Times, Framing

CONSTANT Inflate(_, _)   \* Inflate(alg, octets) = [st |-> "ok"/"err"/"big", data |-> octets]

E(n, v, t, d, c) == [n |-> n, v |-> v, t |-> t, d |-> d, c |-> c]
\* the dump of an entry: its octets, whether it depends on an option, whether it is shown
D(flag, octets) == [on |-> flag /\ octets # <<>>, opt |-> TRUE, o |-> octets]
Always(octets) == [on |-> octets # <<>>, opt |-> FALSE, o |-> octets]
NoDump == [on |-> FALSE, opt |-> FALSE, o |-> <<>>]
Bytes(n) == Dec(n) \o " bytes"

Dbg(st) == st.o.debug
OInt(st) == st.o.int \/ st.o.debug
OLit(st) == st.o.literal \/ st.o.debug
OMark(st) == st.o.marker \/ st.o.debug
OPriv(st) == st.o.private \/ st.o.debug
OCert(st) == st.o.cert \/ st.o.debug
\* a local zone whose offset changes by shift minutes at 2001-09-09T01:46:40Z
Zone(st, t) == IF st.o.utc THEN 0
               ELSE st.o.off + (IF t[1] > 15258 \/ (t[1] = 15258 /\ t[2] >= 51712) THEN st.o.shift ELSE 0)

NoContext == [mode |-> "none", sig |-> <<>>, key |-> <<>>]
NoRegs == [ver |-> 0, pub |-> 0, sym |-> 0, usage |-> 0, iv |-> TRUE, note |-> ""]
Cursor(b, cx, o) == [b |-> b, p |-> 0, its |-> <<>>, err |-> FALSE, cx |-> cx, o |-> o, r |-> NoRegs]

\* ---- cursor primitives ----------------------------------------------------
Rest(st) == Len(st.b) - st.p
Ahead(st, n) == SubSeq(st.b, st.p + 1, st.p + n)
AheadAll(st) == SubSeq(st.b, st.p + 1, Len(st.b))
Octet(st) == st.b[st.p + 1]
Fail(st) == [st EXCEPT !.err = TRUE]
Show(st, e) == [st EXCEPT !.its = Append(@, e)]
ShowAll(st, es) == [st EXCEPT !.its = @ \o es]
Skip(st, n) == [st EXCEPT !.p = @ + n]
Live(st, n) == ~st.err /\ Rest(st) >= n          \* the next n octets are there

\* ---- one-field steps (no-ops once the packet is damaged) --------------------
IdEntry(kind, k, dbg) == E(IdLabel(kind), IdName(kind, k), "", D(dbg, <<k>>), <<>>)
Id(st, kind) == IF st.err THEN st ELSE IF ~Live(st, 1) THEN Fail(st)
  ELSE LET k == Octet(st) s == Show(Skip(st, 1), IdEntry(kind, k, Dbg(st))) IN
       IF kind = "pub" THEN [s EXCEPT !.r.pub = k]
       ELSE IF kind = "sym" THEN [s EXCEPT !.r.sym = k] ELSE s
VersionNote(v, cur, draft) == IF v < cur THEN "old" ELSE IF v = cur THEN "current"
                              ELSE IF draft # 0 /\ v = draft THEN "draft" ELSE "unknown"
Version(st, cur, draft) == IF st.err THEN st ELSE IF ~Live(st, 1) THEN Fail(st)
  ELSE LET v == Octet(st) IN
       [Show(Skip(st, 1), E("Version", Dec(v), VersionNote(v, cur, draft), D(Dbg(st), <<v>>), <<>>))
        EXCEPT !.r.ver = v]
KeyIdName(b8) == "0x" \o HexCat(b8)
KeyId(st) == IF st.err THEN st ELSE IF ~Live(st, 8) THEN Fail(st)
  ELSE Show(Skip(st, 8), E("Key ID", KeyIdName(Ahead(st, 8)), "", NoDump, <<>>))
Moment(st, b4) == Rfc3339(TimeOf(b4), Zone(st, TimeOf(b4)))
Time(st, name) == IF st.err THEN st ELSE IF ~Live(st, 4) THEN Fail(st)
  ELSE LET b4 == Ahead(st, 4) IN Show(Skip(st, 4), E(name, Moment(st, b4), "", D(Dbg(st), b4), <<>>))
\* octets that are always dumped
Fixed(st, name, n) == IF st.err THEN st ELSE IF ~Live(st, n) THEN Fail(st)
  ELSE Show(Skip(st, n), E(name, "", "", Always(Ahead(st, n)), <<>>))
\* the rest of the body; the cursor stays
RawAs(st, name, dump) == IF st.err THEN st ELSE Show(st, E(name, "", Bytes(Rest(st)), dump, <<>>))
Raw(st, name, flag) == RawAs(st, name, D(flag, AheadAll(st)))
RawAlways(st, name) == RawAs(st, name, Always(AheadAll(st)))
Unparsed(st) == IF ~st.err /\ Rest(st) > 0 THEN Raw(st, "Unknown data", Dbg(st)) ELSE st

\* multi-precision integer: 2-octet bit length, then its octets
MpiAt(st) == IF ~Live(st, 2) THEN [ok |-> FALSE, bits |-> 0, data |-> <<>>]
  ELSE LET bits == U16(st.b, st.p + 1) n == (bits + 7) \div 8 IN
       IF Rest(st) - 2 < n THEN [ok |-> FALSE, bits |-> 0, data |-> <<>>]
       ELSE [ok |-> TRUE, bits |-> bits, data |-> SubSeq(st.b, st.p + 3, st.p + 2 + n)]
MpiNamed(st, m, name) == Show(Skip(st, 2 + Len(m.data)),
                              E(name, "", Dec(m.bits) \o " bits", D(OInt(st), m.data), <<>>))
Mpi(st, name) == IF st.err THEN st ELSE LET m == MpiAt(st) IN IF ~m.ok THEN Fail(st) ELSE MpiNamed(st, m, name)
Point(st, alg) == IF st.err THEN st ELSE LET m == MpiAt(st) IN IF ~m.ok THEN Fail(st)
  ELSE MpiNamed(st, m, alg \o " EC point (" \o PointKind(IF m.data = <<>> THEN 255 ELSE m.data[1]) \o ")")
Mpis(st, names) == FoldLeft(Mpi, st, names)

Curve(st) == IF st.err THEN st ELSE IF ~Live(st, 1) \/ Rest(st) - 1 < Octet(st) THEN Fail(st)
  ELSE LET oid == SubSeq(st.b, st.p + 2, st.p + 1 + Octet(st)) IN
       Show(Skip(st, 1 + Octet(st)), E("ECC Curve OID", CurveName(oid), "", Always(oid), <<>>))
\* length-prefixed parameter; a missing length octet counts as empty
ParmAt(st) == IF Rest(st) = 0 THEN [ok |-> TRUE, data |-> <<>>, used |-> 0]
  ELSE IF Rest(st) - 1 < Octet(st) THEN [ok |-> FALSE, data |-> <<>>, used |-> 0]
  ELSE [ok |-> TRUE, data |-> SubSeq(st.b, st.p + 2, st.p + 1 + Octet(st)), used |-> 1 + Octet(st)]
Parm(st, name) == IF st.err THEN st ELSE LET q == ParmAt(st) IN IF ~q.ok THEN Fail(st)
  ELSE Show(Skip(st, q.used), E(name, "", Bytes(Len(q.data)), D(OInt(st), q.data), <<>>))
Kdf(st) == IF st.err THEN st ELSE LET q == ParmAt(st) IN IF ~q.ok THEN Fail(st)
  ELSE LET known == Len(q.data) > 2 /\ q.data[1] = 1 IN
       Show(Skip(st, q.used),
            E("KDF parameters", IF known THEN "" ELSE Unknown, Bytes(Len(q.data)), D(OInt(st), q.data),
              IF known THEN <<IdEntry("hash", q.data[2], Dbg(st)), IdEntry("sym", q.data[3], Dbg(st))>> ELSE <<>>))

TextEntry(name, b, flag) ==
  IF b = <<>> THEN E(name, "", "0 byte", NoDump, <<>>)
  ELSE LET u == Utf8(b) IN
       IF u.ok THEN E(name, ShownText(u.cps), "", D(flag, b), <<>>)
       ELSE E(name, "", "invalid text string", Always(b), <<>>)

\* ---- public-key algorithm families -----------------------------------------
Family(k) == IF k \in 1 .. 3 THEN "RSA" ELSE IF k = 17 THEN "DSA" ELSE IF k \in {16, 20} THEN "Elgamal"
  ELSE IF k = 18 THEN "ECDH" ELSE IF k = 19 THEN "ECDSA" ELSE IF k = 22 THEN "EdDSA" ELSE "none"
Opaque(st, what) == Raw(st, "Multi-precision integers of " \o what, Dbg(st))
OpaqueUnknown(st) == Opaque(st, "Unknown (pub " \o Dec(st.r.pub) \o ")")

KeyMaterial(st) == IF st.err THEN st ELSE LET f == Family(st.r.pub) IN
  CASE f = "RSA" -> Mpis(st, <<"RSA public modulus n", "RSA public encryption exponent e">>)
    [] f = "DSA" -> Mpis(st, <<"DSA p", "DSA q (q is a prime divisor of p-1)", "DSA g",
                               "DSA y (= g^x mod p where x is secret)">>)
    [] f = "Elgamal" -> Mpis(st, <<"ElGamal prime p", "ElGamal group generator g",
                                   "ElGamal public key value y (= g^x mod p where x is secret)">>)
    [] f = "ECDH" -> Kdf(Point(Curve(st), f))
    [] f \in {"ECDSA", "EdDSA"} -> Point(Curve(st), f)
    [] f = "none" -> OpaqueUnknown(st)
SigMaterial(st) == IF st.err THEN st ELSE LET f == Family(st.r.pub) IN
  CASE f = "RSA" -> Mpi(st, "RSA signature value m^d mod n")
    [] f = "DSA" -> Mpis(st, <<"DSA value r", "DSA value s">>)
    [] f = "Elgamal" -> Mpis(st, <<"ElGamal a = g^k mod p", "ElGamal b = (h - a*x)/k mod p - 1">>)
    [] f = "ECDH" -> Opaque(st, f)
    [] f = "ECDSA" -> Mpis(st, <<"ECDSA value r", "ECDSA value s">>)
    [] f = "EdDSA" -> Mpis(st, <<"EC point r", "EdDSA value s in the little endian representation">>)
    [] f = "none" -> OpaqueUnknown(st)
PkcsNote == "m = sym alg(1 byte) + checksum(2 bytes) + PKCS#1 block encoding EME-PKCS1-v1_5"
SessionKey(st) == IF st.err THEN st ELSE LET f == Family(st.r.pub) IN
  CASE f = "RSA" -> Mpi(st, "RSA m^e mod n; " \o PkcsNote)
    [] f = "Elgamal" -> Mpis(st, <<"ElGamal g^k mod p", "ElGamal m * y^k mod p; " \o PkcsNote>>)
    [] f = "ECDH" -> Parm(Point(st, f), "symmetric key (encoded)")
    [] f \in {"DSA", "ECDSA", "EdDSA"} -> Opaque(st, f)
    [] f = "none" -> OpaqueUnknown(st)
\* `size` is what was left of the body when the material started
PlainMaterial(st) == IF st.err THEN st ELSE LET f == Family(st.r.pub) IN
  CASE f = "RSA" -> Mpis(st, <<"RSA secret exponent d", "RSA secret prime value p",
                               "RSA secret prime value q (p < q)",
                               "RSA u, the multiplicative inverse of p, mod q">>)
    [] f = "DSA" -> Mpi(st, "DSA secret exponent x")
    [] f = "Elgamal" -> Mpi(st, "ElGamal secret exponent x")
    [] f \in {"ECDH", "ECDSA", "EdDSA"} -> Mpi(st, f \o " secret key")
    [] f = "none" ->
         LET n == Rest(st) - 2 IN
         IF n < 0 THEN Fail(st)
         ELSE Show(Skip(st, n), E("Multi-precision integers of unknown secret key (pub " \o Dec(st.r.pub) \o ")",
                                  "", Bytes(n), D(Dbg(st), Ahead(st, n)), <<>>))
EncryptedMaterial(st) == IF st.err THEN st ELSE LET f == Family(st.r.pub) IN
  Skip(Raw(st, IF f = "RSA" THEN "RSA encrypted key (d, p, q, u)"
               ELSE IF f = "none" THEN "Multi-precision integers of unknown encrypted key (pub " \o Dec(st.r.pub) \o ")"
               ELSE f \o " encrypted key", Dbg(st)), Rest(st))

\* ---- string-to-key specifier -------------------------------------------------
S2kCount(c) == (16 + (c % 16)) * 2 ^ ((c \div 16) + 6)
\* children of the S2K entry are collected in a fresh cursor over the same octets
S2k(st) == IF st.err THEN st ELSE IF ~Live(st, 1) THEN Fail(st)
  ELSE LET k == Octet(st)
           s0 == [Skip(st, 1) EXCEPT !.its = <<>>]
           salted(s) == Fixed(s, "Salt", 8)
           counted(s) == IF s.err THEN s ELSE IF ~Live(s, 1) THEN Fail(s)
                         ELSE Show(Skip(s, 1), E("Count", Dec(S2kCount(Octet(s))), "", Always(<<Octet(s)>>), <<>>))
           card(s) ==   \* GNU extension: no IV follows; extension 1002 carries a card serial number
             IF Rest(s) < 4 \/ Ahead(s, 3) # <<71, 78, 85>> THEN s
             ELSE LET m == s.b[s.p + 4]
                      g == [Skip(s, 4) EXCEPT !.r.iv = FALSE]
                      ge(c) == E("GNU-divert-to-card", "Extension Number " \o Dec(1000 + m), "", NoDump, c)
                  IN IF m # 2 THEN Show(g, ge(<<>>))
                     ELSE IF ~Live(g, 1) \/ Rest(g) - 1 < Octet(g) THEN Fail(g)
                     ELSE LET n == Octet(g) IN
                          Show(Skip(g, 1 + n), ge(<<E("Serial Number", "", "", Always(SubSeq(g.b, g.p + 2, g.p + 1 + n)), <<>>)>>))
           s1 == CASE k = 0 -> Id(s0, "hash")
                   [] k = 1 -> salted(Id(s0, "hash"))
                   [] k = 3 -> counted(salted(Id(s0, "hash")))
                   [] k = 101 -> card(s0)
                   [] OTHER -> s0
       IN [s1 EXCEPT !.its = Append(st.its, [IdEntry("s2k", k, Dbg(st)) EXCEPT !.c = s1.its])]

\* ---- keys ------------------------------------------------------------------------
KeyTime(st) == IF st.err THEN st ELSE IF ~Live(st, 4) THEN Fail(st)
  ELSE LET b4 == Ahead(st, 4) IN [Time(st, "Public key creation time") EXCEPT !.cx.key = b4]
ValidDays(st) == IF st.err THEN st ELSE IF ~Live(st, 2) THEN Fail(st)
  ELSE Show(Skip(st, 2), E("Valid days", Dec(U16(st.b, st.p + 1)), "0 is forever", NoDump, <<>>))
\* run f on the next n octets only; the outer cursor continues after them
Inner(st, n, b) == [st EXCEPT !.b = b, !.p = 0]
Outer(st, in, n) == [in EXCEPT !.b = st.b, !.p = st.p + n]
PublicFields(st0) == IF st0.err THEN st0 ELSE
  LET st == [st0 EXCEPT !.cx.key = <<>>] v == st.r.ver IN
  CASE v = 3 -> KeyMaterial(Id(ValidDays(KeyTime(st)), "pub"))
    [] v = 4 -> KeyMaterial(Id(KeyTime(st), "pub"))
    [] v = 5 -> LET s == Id(KeyTime(st), "pub") IN
                IF s.err THEN s ELSE IF ~Live(s, 4) THEN Fail(s)
                ELSE LET n == U32(s.b, s.p + 1) IN
                     IF Rest(s) - 4 < n THEN Fail(s)
                     ELSE Outer(s, Unparsed(KeyMaterial(Inner(s, n, SubSeq(s.b, s.p + 5, s.p + 4 + n)))), 4 + n)
    [] OTHER -> st
PublicKey(st) == Unparsed(PublicFields(Version(st, 4, 5)))

\* protection parameters, according to the usage octet
Protection(st) == IF st.err THEN st ELSE LET u == st.r.usage
    cipher == IF u = 0 THEN st ELSE IF u >= 253 THEN Id(st, "sym")
              ELSE [Show(st, IdEntry("sym", u, Dbg(st))) EXCEPT !.r.sym = u]
    aead == IF u = 253 THEN Id(cipher, "aead") ELSE cipher
    spec == IF u >= 253 THEN S2k(aead) ELSE aead
    iv == IF spec.err \/ u = 0 \/ ~spec.r.iv THEN spec
          ELSE Fixed(spec, IF u = 253 THEN "nonce for the AEAD" ELSE "IV", CipherIV(spec.r.sym))
  IN iv
SecretNote(u) == CASE u = 0 -> "s2k usage 0; plain secret-key material"
  [] u = 253 -> "s2k usage 253; encrypted secret-key material and AEAD authentication tag"
  [] u = 254 -> "s2k usage 254; encrypted secret-key material and 20-octet SHA-1 hash"
  [] OTHER -> "s2k usage " \o Dec(u) \o "; encrypted secret-key material and 2-octet checksum"
Material(st) == IF st.r.usage = 0 THEN PlainMaterial(st) ELSE EncryptedMaterial(st)
Noted(st) == [st EXCEPT !.r.note = SecretNote(st.r.usage)]
Checksum(st) == IF st.r.usage = 0 THEN Fixed(st, "2-octet checksum", 2) ELSE st
SecretFields(st0) == IF st0.err THEN st0 ELSE IF ~Live(st0, 1) THEN Fail(st0)
  ELSE LET st == [Skip(st0, 1) EXCEPT !.r.usage = Octet(st0), !.r.iv = TRUE] IN
    IF st.r.ver # 5 THEN LET s == Protection(st) IN IF s.err THEN s ELSE Checksum(Material(Noted(s)))
    ELSE \* version 5: one-octet count of the parameters, four-octet count of the material
      LET s1 == IF ~Live(st, 1) \/ Rest(st) - 1 < Octet(st) THEN Fail(st)
                ELSE IF Octet(st) = 0 THEN Skip(st, 1)
                ELSE LET n == Octet(st) IN
                     Outer(st, Unparsed(Protection(Inner(st, n, SubSeq(st.b, st.p + 2, st.p + 1 + n)))), 1 + n)
      IN IF s1.err THEN s1 ELSE IF ~Live(s1, 4) THEN Fail(s1)
         ELSE LET n == U32(s1.b, s1.p + 1) IN
              IF Rest(s1) - 4 < n THEN Fail(s1)
              ELSE IF n = 0 THEN Skip(s1, 4)
              ELSE LET in == Material(Noted(Inner(s1, n, SubSeq(s1.b, s1.p + 5, s1.p + 4 + n))))
                       \* the checksum lies after the counted material, and is shown before what is left of it
                       left == IF in.err THEN in ELSE Unparsed([in EXCEPT !.its = <<>>])
                       out == IF in.err THEN in ELSE Checksum(Outer(s1, in, 4 + n))
                   IN IF out.err THEN out ELSE ShowAll(out, left.its)
SecretKey(st0) == LET v == Version(st0, 4, 5) IN IF v.err THEN v ELSE
  LET pub == PublicFields([v EXCEPT !.its = <<>>]) IN IF pub.err THEN pub ELSE
  LET sec == SecretFields([pub EXCEPT !.its = <<>>]) IN IF sec.err THEN sec ELSE
  Unparsed([sec EXCEPT !.its = v.its \o <<E("Public-Key", "", "", NoDump, pub.its),
                                          E("Secret-Key", "", sec.r.note, NoDump, sec.its)>>])

\* ---- session keys, one-pass signatures, encrypted data -----------------------------
PubEsk(st) == Unparsed(SessionKey(Id(KeyId(Version([st EXCEPT !.cx.mode = "pub"], 3, 0)), "pub")))
SymEsk(st) == LET v == Version([st EXCEPT !.cx.mode = "sym"], 4, 5) IN
  Unparsed(IF v.r.ver = 4 THEN S2k(Id(v, "sym")) ELSE v)
OnePass(st) == LET s == KeyId(Id(Id(Id(Version(st, 3, 0), "sig"), "hash"), "pub")) IN
  IF s.err THEN s ELSE IF ~Live(s, 1) THEN Fail(s)
  ELSE Unparsed(Show(Skip(s, 1), E("Encrypted session key",
         IF Octet(s) = 0 THEN "another one pass signature" ELSE "other than one pass signature",
         "flag 0x" \o Hex2(Octet(s)), NoDump, <<>>)))
ModeText(m) == IF m = "sym" THEN "sym alg is specified in sym-key encrypted session key"
               ELSE "sym alg is specified in pub-key encrypted session key"
SymEncrypted(st) == LET e == E("Encrypted data", IF st.cx.mode = "none" THEN "sym alg is IDEA, simple string-to-key"
                                                ELSE ModeText(st.cx.mode),
                               Bytes(Rest(st)), D(Dbg(st), st.b), <<>>)
                    IN [Show(st, e) EXCEPT !.cx.mode = "none"]
Protected(st) == LET e == E("Encrypted data", "", IF st.cx.mode = "none" THEN Bytes(Rest(st))
                                                 ELSE "plain text + MDC SHA1(20 bytes); " \o ModeText(st.cx.mode),
                            D(Dbg(st), st.b), <<>>)
                 IN [Show(st, e) EXCEPT !.cx.mode = "none"]
Mdc(st) == Show(st, E("MDC", "", "SHA-1 (20 bytes)", D(Dbg(st), st.b), <<>>))
AeadEncrypted(st) == LET s == Id(Version(st, 1, 0), "sym") IN IF s.err THEN s ELSE IF ~Live(s, 2) THEN Fail(s)
  ELSE LET a == Octet(s)
           s2 == Id(s, "aead")
           c == Octet(s2)
           s3 == Show(Skip(s2, 1), E("Chunk size", Pow2Dec(c + 6), "", Always(<<c>>), <<>>))
           s4 == Fixed(s3, "IV", AeadIV(a))
       IN IF s4.err \/ Rest(s4) = 0 THEN s4 ELSE Raw(s4, "Encrypted data and authentication tag", Dbg(st))

\* ---- literal data, user IDs, markers, trust ---------------------------------------
FormatChar(f) == IF IsControl(f) THEN CodePoint(f) ELSE Char(f)
Literal(st) == IF ~Live(st, 2) THEN Fail(st)
  ELSE LET f == Octet(st)
           n == st.b[st.p + 2]
           s == Show(Skip(st, 2), E("Literal data format", FormatChar(f), FormatName(f), NoDump, <<>>))
       IN IF Rest(s) < n + 4 THEN Fail(s)
          ELSE LET s2 == Show(Skip(s, n), TextEntry("File name", Ahead(s, n), OLit(st)))
                   b4 == Ahead(s2, 4)
                   s3 == Show(Skip(s2, 4), E("Creation time", IF ZeroTime(b4) THEN "null" ELSE Moment(st, b4),
                                             "", D(Dbg(st), b4), <<>>))
               IN Raw(s3, "Literal data", OLit(st))
UserId(st) == Show(st, TextEntry("User ID", st.b, Dbg(st)))
Marker(st) == Raw(st, "Literal data", OMark(st))
Trust(st) == RawAlways(st, "Trust")

\* ---- subpackets ---------------------------------------------------------------------
Flag(b, text) == IF b = 0 THEN <<>> ELSE <<E("Flag", text, "", NoDump, <<>>)>>
UnknownFlag(i, b) == Flag(b, "Unknown flag" \o Dec(i) \o "(0x" \o Hex2(b) \o ")")
\* octets from the i-th one on, all bits unassigned
UnknownFlags(st, i) == FlattenSeq([j \in 1 .. Len(st.b) - i + 1 |-> UnknownFlag(i + j - 1, st.b[i + j - 1])])
BitFlags(b, table) == FlattenSeq([i \in 1 .. Len(table) |-> IF Bit(b, table[i][1]) THEN Flag(1, table[i][2]) ELSE <<>>])
KeyFlags1 == << <<1, "This key may be used to certify other keys.">>, <<2, "This key may be used to sign data.">>,
  <<4, "This key may be used to encrypt communications.">>, <<8, "This key may be used to encrypt storage.">>,
  <<16, "The private component of this key may have been split by a secret-sharing mechanism.">>,
  <<32, "This key may be used for authentication.">>, <<64, "Unknown flag1(0x40)">>,
  <<128, "The private component of this key may be in the possession of more than one person.">> >>
KeyFlags2 == << <<4, "This key may be used as an additional decryption subkey (ADSK).">>,
  <<8, "This key may be used for timestamping.">> >>
Features1 == << <<1, "Modification Detection (packets 18 and 19)">>,
  <<2, "AEAD Encrypted Data Packet (packet 20) and version 5 Symmetric-Key Encrypted Session Key Packets (packet 3)">>,
  <<4, "Version 5 Public-Key Packet format and corresponding new fingerprint format">> >>

\* A subpacket decoder returns a cursor whose its[1] is the entry of the subpacket
SubRoot(st, name) == E(name, "", Bytes(Len(st.b)), D(Dbg(st), st.b), <<>>)
One(st, e) == [st EXCEPT !.its = <<e>>]
Under(root, st) == IF st.err THEN st ELSE [st EXCEPT !.its = <<[root EXCEPT !.c = st.its]>>]
Valued(root, st, v) == One(st, [root EXCEPT !.v = v])
Need(st, n) == Rest(st) >= n

Expiry(st, root, start) ==
  LET b4 == Ahead(st, 4)
      note == IF start = <<>> \/ ZeroTime(start) THEN ""
              ELSE LET end == AddTime(TimeOf(start), TimeOf(b4)) IN Rfc3339(end, Zone(st, end))
  IN E(root.n, "secs:" \o HexCat(b4), note, D(Dbg(st), b4), <<>>)

Image(st, root) == IF ~Need(st, 3) THEN Fail(st)
  ELSE LET hdr == U16LE(st.b, 1)
           v == st.b[3]
       IN IF hdr > Len(st.b) THEN Fail(st)
          ELSE IF Private(v) /\ Len(st.b) < 4 THEN Fail(st)
          ELSE LET ve == E("Version", Dec(v), IF v = 1 THEN "" ELSE IF Private(v) THEN "private or experimental use"
                                               ELSE Unknown, NoDump, <<>>)
                   enc == IF Private(v) THEN <<E("Encoding", IF st.b[4] = 1 THEN "JPEG" ELSE Unknown,
                                                 "(enc " \o Dec(st.b[4]) \o ")", NoDump, <<>>)>> ELSE <<>>
               IN One(st, [root EXCEPT !.c = <<ve>> \o enc \o
                      <<E("Image data", "", Bytes(Len(st.b) - hdr), NoDump, <<>>)>>])

Notation(st, root) == IF ~Need(st, 8) THEN Fail(st)
  ELSE LET f == st.b[1]
           nl == U16(st.b, 5)
           vl == U16(st.b, 7)
       IN IF Len(st.b) < 8 + nl + vl THEN Fail(st)
          ELSE LET val == SubSeq(st.b, 9 + nl, 8 + nl + vl) IN
               One(st, [root EXCEPT !.c =
                 (IF f >= 128 THEN Flag(1, "Human-readable") ELSE <<>>) \o UnknownFlag(1, f % 128)
                 \o UnknownFlag(2, st.b[2]) \o UnknownFlag(3, st.b[3]) \o UnknownFlag(4, st.b[4])
                 \o <<TextEntry("Name", SubSeq(st.b, 9, 8 + nl), Dbg(st))>>
                 \o <<IF f >= 128 THEN TextEntry("Value", val, Dbg(st)) ELSE E("Value", "", "", Always(val), <<>>)>>])

FingerprintOf(st, root) == IF ~Need(st, 1) THEN Fail(st)
  ELSE LET v == Octet(st) IN
       Under(root, RawAlways(Show(Skip(st, 1), E("Version", Dec(v), IF v = 4 THEN "need 20 octets length"
                                            ELSE IF v = 5 THEN "need 32 octets length" ELSE Unknown, NoDump, <<>>)),
                       "Fingerprint"))
IdList(st, root, kind) == One(st, [root EXCEPT !.c = [i \in 1 .. Len(st.b) |-> IdEntry(kind, st.b[i], Dbg(st))]])

RECURSIVE Signature(_), PacketSeq(_, _, _, _), BodyOf(_, _)

EmbeddedSignature(st, root) ==
  LET s == Signature([st EXCEPT !.p = 0, !.its = <<>>]) IN
  IF s.err THEN Fail(st)
  ELSE [st EXCEPT !.cx = s.cx,
        !.its = <<[root EXCEPT !.c = <<E(TagName(2), "", Bytes(Len(st.b)), D(Dbg(st), st.b), s.its)>>]>>]
KeyBlock(st, root) == IF ~Need(st, 1) THEN Fail(st)
  ELSE LET ty == E("Type", Dec(Octet(st)), "", NoDump, <<>>)
           data == Tail(st.b)
           e == E("Key data", "", Bytes(Len(data)), D(Dbg(st), data), <<>>)
       IN IF Octet(st) # 0 THEN One(st, [root EXCEPT !.c = <<ty, e>>])
          ELSE LET s == PacketSeq(data, 0, <<>>, st) IN
               IF s.err THEN Fail(st)
               ELSE [st EXCEPT !.cx = s.cx, !.its = <<[root EXCEPT !.c = <<ty, [e EXCEPT !.c = s.its]>>]>>]

\* subpackets of a signature
SigSubpacket(st, octet) == LET k == octet % 128 root == SubRoot(st, SubName(octet)) b1 == Octet(st) IN
  CASE k = 2 -> IF ~Need(st, 4) THEN Fail(st)
                ELSE [One(st, E(root.n, Moment(st, Ahead(st, 4)), "", D(Dbg(st), Ahead(st, 4)), <<>>))
                      EXCEPT !.cx.sig = Ahead(st, 4)]
    [] k = 3 -> IF ~Need(st, 4) THEN Fail(st) ELSE [One(st, Expiry(st, root, st.cx.sig)) EXCEPT !.cx.sig = <<>>]
    [] k = 9 -> IF ~Need(st, 4) THEN Fail(st) ELSE [One(st, Expiry(st, root, st.cx.key)) EXCEPT !.cx.key = <<>>]
    [] k = 4 -> IF ~Need(st, 1) THEN Fail(st)
                ELSE One(st, [root EXCEPT !.v = IF b1 = 0 THEN "Not exportable" ELSE "Exportable", !.d = Always(Tail(st.b))])
    [] k = 5 -> IF ~Need(st, 2) THEN Fail(st)
                ELSE One(st, [root EXCEPT !.c = <<E("Level", Dec(b1), "", NoDump, <<>>),
                                                  E("Trust amount", Dec(st.b[2]), "", NoDump, <<>>)>>])
    [] k \in {6, 24, 26, 28} -> One(st, TextEntry(root.n, st.b, Dbg(st)))
    [] k = 7 -> IF ~Need(st, 1) THEN Fail(st) ELSE Valued(root, st, IF b1 = 0 THEN "Not revocable" ELSE "Revocablee")
    [] k = 11 -> IdList(st, root, "sym")
    [] k = 21 -> IdList(st, root, "hash")
    [] k = 22 -> IdList(st, root, "comp")
    [] k = 34 -> IdList(st, root, "aead")
    [] k = 12 -> IF ~Need(st, 2) THEN Fail(st)
                 ELSE Under(root, RawAlways(Id(Show(Skip(st, 1), E("Class", IF b1 < 128 THEN Unknown
                            ELSE IF Bit(b1, 64) THEN "Sensitive" ELSE "Normal", "", Always(<<b1>>), <<>>)), "pub"),
                            "Fingerprint"))
    [] k = 16 -> IF ~Need(st, 8) THEN Fail(st) ELSE One(st, E(root.n, KeyIdName(Ahead(st, 8)), "", NoDump, <<>>))
    [] k = 20 -> Notation(st, root)
    [] k = 23 -> IF ~Need(st, 1) THEN Fail(st)
                 ELSE One(st, [root EXCEPT !.c = (IF b1 >= 128 THEN Flag(1, "No-modify") ELSE <<>>)
                                                 \o UnknownFlag(1, b1 % 128) \o UnknownFlags(st, 2)])
    [] k = 25 -> IF ~Need(st, 1) THEN Fail(st) ELSE Valued(root, st, IF b1 = 0 THEN "Not primary" ELSE "Primary")
    [] k = 27 -> IF ~Need(st, 1) THEN Fail(st)
                 ELSE One(st, [root EXCEPT !.c = BitFlags(b1, KeyFlags1)
                        \o (IF Len(st.b) > 1 THEN BitFlags(st.b[2], KeyFlags2) \o UnknownFlag(2, Mask(st.b[2], 243)) ELSE <<>>)
                        \o UnknownFlags(st, 3)])
    [] k = 29 -> IF ~Need(st, 1) THEN Fail(st)
                 ELSE One(st, [root EXCEPT !.v = ReasonName(b1),
                        !.c = IF Len(st.b) > 1 THEN <<TextEntry("Additional resultrmation", Tail(st.b), Dbg(st))>> ELSE <<>>])
    [] k = 30 -> IF ~Need(st, 1) THEN Fail(st)
                 ELSE One(st, [root EXCEPT !.c = BitFlags(b1, Features1) \o UnknownFlag(1, Mask(b1, 248))
                                                 \o UnknownFlags(st, 2)])
    [] k = 31 -> IF ~Need(st, 2) THEN Fail(st) ELSE Under(root, RawAlways(Id(Id(st, "pub"), "hash"), "Hash"))
    [] k = 32 -> EmbeddedSignature(st, root)
    [] k \in {33, 35} -> FingerprintOf(st, root)
    [] k = 37 -> Under(root, Raw(st, "certification digests", OCert(st)))
    [] k = 38 -> KeyBlock(st, root)
    [] OTHER -> One(st, root)
AttrSubpacket(st, octet) == LET root == SubRoot(st, AttrName(octet)) IN
  IF octet % 128 = 1 THEN Image(st, root) ELSE One(st, root)

SubStep(a, sub) == IF a.st.err THEN a
  ELSE LET c == Cursor(sub.b, a.st.cx, a.st.o)
           s == IF a.where = 2 THEN SigSubpacket(c, sub.t) ELSE AttrSubpacket(c, sub.t)
       IN IF s.err THEN [a EXCEPT !.st = Fail(a.st)]
          ELSE [a EXCEPT !.st.cx = s.cx, !.out = Append(@, s.its[1])]
\* an area of subpackets becomes one entry with one child per subpacket
Area(st, name, area, where) ==
  LET subs == Subpackets(area) IN
  IF ~subs.ok THEN Fail(st)
  ELSE LET a == FoldLeft(SubStep, [st |-> st, out |-> <<>>, where |-> where], subs.subs) IN
       IF a.st.err THEN Fail(st)
       ELSE Show(a.st, E(name, "", Bytes(Len(area)), D(Dbg(st), area), a.out))
UserAttribute(st) == Area(st, "Subpacket", st.b, 17)

\* ---- signatures -----------------------------------------------------------------------
CountedArea(st, name) == IF st.err THEN st ELSE IF ~Live(st, 2) THEN Fail(st)
  ELSE LET n == U16(st.b, st.p + 1) IN
       IF Rest(st) - 2 < n THEN Fail(st)
       ELSE IF n = 0 THEN Skip(st, 2)
       ELSE Skip(Area(st, name, SubSeq(st.b, st.p + 3, st.p + 2 + n), 2), 2 + n)
HashedMaterial(st) == IF st.err THEN st ELSE IF ~Live(st, 1) \/ Rest(st) - 1 < Octet(st) THEN Fail(st)
  ELSE LET n == Octet(st) m == SubSeq(st.b, st.p + 2, st.p + 1 + n) IN
       IF n # 5 THEN Show(Skip(st, 1 + n), E("Hashed material", Unknown, Bytes(n), D(Dbg(st), m), <<>>))
       ELSE Show(Skip(st, 6), E("Hashed material", "", Bytes(5), NoDump,
              << IdEntry("sig", m[1], Dbg(st)),
                 E("Signature creation time", Moment(st, Tail(m)), "", D(Dbg(st), Tail(m)), <<>>) >>))
HashLeft(st) == Fixed(st, "Hash left 2 bytes", 2)
SignatureFields(v) ==
  CASE v.r.ver = 3 -> SigMaterial(HashLeft(Id(Id(KeyId(HashedMaterial(v)), "pub"), "hash")))
    [] v.r.ver \in {4, 5} -> SigMaterial(HashLeft(CountedArea(CountedArea(Id(Id(Id(v, "sig"), "pub"), "hash"),
                                  "Hashed Subpacket"), "Unhashed Subpacket")))
    [] OTHER -> v
\* the creation time register is private to one signature, also when it is embedded in another
Signature(st) == LET s == SignatureFields(Version([st EXCEPT !.cx.sig = <<>>], 4, 5)) IN
  [Unparsed(s) EXCEPT !.cx.sig = st.cx.sig]

\* ---- compressed data ---------------------------------------------------------------------
CompressedFields(st) == LET s == Id(st, "comp") IN
  IF s.err \/ Rest(s) = 0 THEN s
  ELSE LET k == st.b[1]
           x == IF k = 0 THEN [st |-> "ok", data |-> Tail(st.b)] ELSE IF k \in 1 .. 3 THEN Inflate(k, Tail(st.b))
                ELSE [st |-> "ok", data |-> <<>>]
           e == E("Compressed data", IF x.st = "big" THEN "<too laege decompressed data>" ELSE "",
                  Bytes(Rest(s)), D(Dbg(st), Tail(st.b)), <<>>)
       IN IF x.st = "err" THEN Fail(s) ELSE Show(s, e)
CompressedInner(st) ==
  IF Len(st.b) < 2 THEN <<>>
  ELSE LET k == st.b[1] IN
       IF k = 0 THEN Tail(st.b)
       ELSE IF k \in 1 .. 3 THEN LET x == Inflate(k, Tail(st.b)) IN IF x.st = "ok" THEN x.data ELSE <<>>
       ELSE <<>>

\* ---- dispatch -----------------------------------------------------------------------------
BodyOf(st, tag) ==
  CASE tag = 1 -> PubEsk(st) [] tag = 2 -> Signature(st) [] tag = 3 -> SymEsk(st) [] tag = 4 -> OnePass(st)
    [] tag \in {5, 7} -> SecretKey(st) [] tag \in {6, 14} -> PublicKey(st) [] tag = 8 -> CompressedFields(st)
    [] tag = 9 -> SymEncrypted(st) [] tag = 10 -> Marker(st) [] tag = 11 -> Literal(st) [] tag = 12 -> Trust(st)
    [] tag = 13 -> UserId(st) [] tag = 17 -> UserAttribute(st) [] tag = 18 -> Protected(st) [] tag = 19 -> Mdc(st)
    [] tag = 20 -> AeadEncrypted(st) [] OTHER -> st
Entry(tag, body, st) ==
  E(TagName(tag), "", Bytes(Len(body)), D(IF tag >= 60 THEN OPriv(st) ELSE Dbg(st), body), st.its)

\* all packets of s from offset p on, without expanding compressed data; result cursor has their entries
PacketSeq(s, p, acc, st) ==
  LET u == PacketAt(s, p) IN
  IF u.st = "err" THEN Fail(st)
  ELSE IF u.st = "eof" THEN [st EXCEPT !.its = acc]
  ELSE LET q == BodyOf(Cursor(u.body, st.cx, st.o), u.tag) IN
       IF q.err THEN Fail(st)
       ELSE PacketSeq(s, u.nxt, Append(acc, Entry(u.tag, u.body, q)), [st EXCEPT !.cx = q.cx])

\* one top-level packet: compressed data is expanded once
Decode(tag, body, cx, o) ==
  LET q == BodyOf(Cursor(body, cx, o), tag) IN
  IF q.err THEN [ok |-> FALSE, cx |-> q.cx, e |-> Entry(tag, body, q)]
  ELSE IF tag # 8 THEN [ok |-> TRUE, cx |-> q.cx, e |-> Entry(tag, body, q)]
  ELSE LET in == PacketSeq(CompressedInner(Cursor(body, cx, o)), 0, <<>>, q) IN
       [ok |-> ~in.err, cx |-> in.cx, e |-> Entry(tag, body, IF in.err THEN q ELSE [q EXCEPT !.its = @ \o in.its])]
=============================================================================
