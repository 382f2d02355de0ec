------------------------------- MODULE Names --------------------------------
(* The registered numeric identifiers and the names they are shown with.    *)
EXTENDS Octets

Lookup(t, k, d) == IF k \in DOMAIN t THEN t[k] ELSE d
Unknown == "Unknown"
PrivateAlg == "Private/Experimental algorithm"
Private(k) == k >= 100 /\ k <= 110

TagNames == 0 :> "Reserved" @@ 1 :> "Public-Key Encrypted Session Key Packet" @@ 2 :> "Signature Packet"
  @@ 3 :> "Symmetric-Key Encrypted Session Key Packet" @@ 4 :> "One-Pass Signature Packet"
  @@ 5 :> "Secret-Key Packet" @@ 6 :> "Public-Key Packet" @@ 7 :> "Secret-Subkey Packet"
  @@ 8 :> "Compressed Data Packet" @@ 9 :> "Symmetrically Encrypted Data Packet"
  @@ 10 :> "Marker Packet (Obsolete Literal Packet)" @@ 11 :> "Literal Data Packet"
  @@ 12 :> "Trust Packet" @@ 13 :> "User ID Packet" @@ 14 :> "Public-Subkey Packet"
  @@ 17 :> "User Attribute Packet" @@ 18 :> "Sym. Encrypted Integrity Protected Data Packet"
  @@ 19 :> "Modification Detection Code Packet" @@ 20 :> "AEAD Encrypted Data Packet"
  @@ [k \in 60 .. 63 |-> "Private or Experimental Values"]
TagName(t) == Lookup(TagNames, t, Unknown) \o " (tag " \o Dec(t) \o ")"

SigNames == 0 :> "Signature of a binary document" @@ 1 :> "Signature of a canonical text document"
  @@ 2 :> "Standalone signature"
  @@ 16 :> "Generic certification of a User ID and Public-Key packet"
  @@ 17 :> "Persona certification of a User ID and Public-Key packet"
  @@ 18 :> "Casual certification of a User ID and Public-Key packet"
  @@ 19 :> "Positive certification of a User ID and Public-Key packet"
  @@ 22 :> "Attested Key Signature" @@ 24 :> "Subkey Binding Signature"
  @@ 25 :> "Primary Key Binding Signature" @@ 31 :> "Signature directly on a key"
  @@ 32 :> "Key revocation signature" @@ 40 :> "Subkey revocation signature"
  @@ 48 :> "Certification revocation signature" @@ 64 :> "Timestamp signature"
  @@ 80 :> "Third-Party Confirmation signature"
SigName(k) == Lookup(SigNames, k, Unknown) \o " (0x" \o Hex2(k) \o ")"

PubNames == 1 :> "RSA (Encrypt or Sign)" @@ 2 :> "RSA Encrypt-Only" @@ 3 :> "RSA Sign-Only"
  @@ 16 :> "Elgamal (Encrypt-Only)" @@ 17 :> "DSA (Digital Signature Algorithm)"
  @@ 18 :> "ECDH public key algorithm" @@ 19 :> "ECDSA public key algorithm"
  @@ 20 :> "Reserved (formerly Elgamal Encrypt or Sign)" @@ 21 :> "Reserved for Diffie-Hellman"
  @@ 22 :> "EdDSA"
SymNames == 0 :> "Plaintext or unencrypted data" @@ 1 :> "IDEA"
  @@ 2 :> "TripleDES (168 bit key derived from 192)" @@ 3 :> "CAST5 (128 bit key, as per)"
  @@ 4 :> "Blowfish (128 bit key, 16 rounds)" @@ 5 :> "Reserved" @@ 6 :> "Reserved"
  @@ 7 :> "AES with 128-bit key" @@ 8 :> "AES with 192-bit key" @@ 9 :> "AES with 256-bit key"
  @@ 10 :> "Twofish with 256-bit key" @@ 11 :> "Camellia with 128-bit key"
  @@ 12 :> "Camellia with 192-bit key" @@ 13 :> "Camellia with 256-bit key"
HashNames == 0 :> "Unknown" @@ 1 :> "MD5" @@ 2 :> "SHA-1" @@ 3 :> "RIPE-MD/160" @@ 4 :> "Reserved"
  @@ 5 :> "Reserved" @@ 6 :> "Reserved" @@ 7 :> "Reserved" @@ 8 :> "SHA2-256" @@ 9 :> "SHA2-384"
  @@ 10 :> "SHA2-512" @@ 11 :> "SHA2-224" @@ 12 :> "SHA3-256" @@ 13 :> "Reserved" @@ 14 :> "SHA3-512"
CompNames == 0 :> "Uncompressed" @@ 1 :> "ZIP <RFC1951>" @@ 2 :> "ZLIB <RFC1950>" @@ 3 :> "BZip2"
AeadNames == 1 :> "EAX mode" @@ 2 :> "OCB mode <RFC7253>"
S2kNames == 0 :> "Simple S2K" @@ 1 :> "Salted S2K" @@ 2 :> "Reserved" @@ 3 :> "Iterated and Salted S2K"

AlgName(tbl, k) == IF Private(k) THEN PrivateAlg ELSE Lookup(tbl, k, Unknown)

\* one-octet identifiers: the label of the entry and the value shown
IdLabel(kind) == CASE kind = "sig" -> "Signiture Type" [] kind = "pub" -> "Public-key Algorithm"
  [] kind = "sym" -> "Symmetric Algorithm" [] kind = "hash" -> "Hash Algorithm"
  [] kind = "comp" -> "Compression Algorithm" [] kind = "aead" -> "AEAD Algorithm"
  [] kind = "s2k" -> "String-to-Key (S2K) Algorithm"
IdName(kind, k) == CASE kind = "sig" -> SigName(k)
  [] kind = "pub" -> AlgName(PubNames, k) \o " (pub " \o Dec(k) \o ")"
  [] kind = "sym" -> AlgName(SymNames, k) \o " (sym " \o Dec(k) \o ")"
  [] kind = "hash" -> AlgName(HashNames, k) \o " (hash " \o Dec(k) \o ")"
  [] kind = "comp" -> AlgName(CompNames, k) \o " (comp " \o Dec(k) \o ")"
  [] kind = "aead" -> AlgName(AeadNames, k) \o " (aead " \o Dec(k) \o ")"
  [] kind = "s2k" -> AlgName(S2kNames, k) \o " (s2k " \o Dec(k) \o ")"

SubNames == 0 :> "Reserved" @@ 1 :> "Image Attribute" @@ 2 :> "Signature Creation Time"
  @@ 3 :> "Signature Expiration Time" @@ 4 :> "Exportable Certification" @@ 5 :> "Trust Signature"
  @@ 6 :> "Regular Expression" @@ 7 :> "Revocable" @@ 8 :> "Reserved" @@ 9 :> "Key Expiration Time"
  @@ 10 :> "Placeholder for backward compatibility" @@ 11 :> "Preferred Symmetric Algorithms"
  @@ 12 :> "Revocation Key" @@ 13 :> "Reserved" @@ 14 :> "Reserved" @@ 15 :> "Reserved"
  @@ 16 :> "Issuer" @@ 17 :> "Reserved" @@ 18 :> "Reserved" @@ 19 :> "Reserved" @@ 20 :> "Notation Data"
  @@ 21 :> "Preferred Hash Algorithms" @@ 22 :> "Preferred Compression Algorithms"
  @@ 23 :> "Key Server Preferences" @@ 24 :> "Preferred Key Server" @@ 25 :> "Primary User ID"
  @@ 26 :> "Policy URI" @@ 27 :> "Key Flags" @@ 28 :> "Signer's User ID" @@ 29 :> "Reason for Revocation"
  @@ 30 :> "Features" @@ 31 :> "Signature Target" @@ 32 :> "Embedded Signature"
  @@ 33 :> "Issuer Fingerprint" @@ 34 :> "Preferred AEAD Algorithms"
  @@ 35 :> "Intended Recipient Fingerprint" @@ 36 :> "Reserved" @@ 37 :> "Attested Certifications"
  @@ 38 :> "Key Block"
\* signature packets and user attribute packets number their subpacket types separately
SigSubNames == TLCEval([k \in DOMAIN SubNames |-> IF k = 1 THEN "Reserved" ELSE SubNames[k]])
AttrSubNames == 0 :> "Reserved" @@ 1 :> "Image Attribute"
SubNameIn(names, octet) ==
  LET s == octet % 128 IN
  (IF Private(s) THEN "Private or experimental" ELSE Lookup(names, s, Unknown))
  \o (IF octet >= 128 THEN " <critical>" ELSE "") \o " (sub " \o Dec(s) \o ")"
SubName(octet) == SubNameIn(SigSubNames, octet)
AttrName(octet) == SubNameIn(AttrSubNames, octet)

CipherIV(k) == IF k \in 0 .. 6 THEN 8 ELSE IF k \in 7 .. 13 THEN 16 ELSE 0
AeadIV(k) == IF k = 1 THEN 16 ELSE IF k = 2 THEN 15 ELSE 0

Curves ==
  { <<"nistp256 (256bits key size)", <<42, 134, 72, 206, 61, 3, 1, 7>> >>,
    <<"secp256k1 (256bits key size)", <<43, 129, 4, 0, 10>> >>,
    <<"nistp384 (384bits key size)", <<43, 129, 4, 0, 34>> >>,
    <<"nistp521 (521bits key size)", <<43, 129, 4, 0, 35>> >>,
    <<"brainpoolP256r1 (256bits key size)", <<43, 36, 3, 3, 2, 8, 1, 1, 7>> >>,
    <<"brainpoolP384r1 (384bits key size)", <<43, 36, 3, 3, 2, 8, 1, 1, 11>> >>,
    <<"brainpoolP512r1 (512bits key size)", <<43, 36, 3, 3, 2, 8, 1, 1, 13>> >>,
    <<"ed25519 (256bits key size)", <<43, 6, 1, 4, 1, 218, 71, 15, 1>> >>,
    <<"cv25519 (256bits key size)", <<43, 6, 1, 4, 1, 151, 85, 1, 5, 1>> >> }
CurveName(oid) == IF \E c \in Curves : c[2] = oid THEN (CHOOSE c \in Curves : c[2] = oid)[1] ELSE Unknown
PointKind(f) == Lookup(4 :> "uncompressed format" @@ 64 :> "Native point format of the curve follows"
                  @@ 65 :> "Only X coordinate follows" @@ 66 :> "Only Y coordinate follows", f, Unknown)
FormatName(f) == Lookup(98 :> "binary" @@ 116 :> "text" @@ 117 :> "UTF-8 text" @@ 49 :> "local" @@ 108 :> "local",
                        f, "unknown")
Reasons == 0 :> "No reason specified (key revocations or cert revocations)"
  @@ 1 :> "Key is superseded (key revocations)" @@ 2 :> "Key material has been compromised (key revocations)"
  @@ 3 :> "Key is retired and no longer used (key revocations)"
  @@ 32 :> "User ID resultrmation is no longer valid (cert revocations)"
ReasonName(k) == (IF Private(k) THEN "(Private Use)" ELSE Lookup(Reasons, k, "Unknown reason"))
                 \o " (" \o Dec(k) \o ")"
=============================================================================
