------------------------------- MODULE Octets -------------------------------
(* Octet sequences, the numbers they encode and their printed forms.        *)
(* TLC integers have 32 bits, so 32-bit OpenPGP scalars are handled through *)
(* their octets.                                                            *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Max2(a, b) == IF a > b THEN a ELSE b

\* ---- scalars -----------------------------------------------------------
U16(b, i) == b[i] * 256 + b[i + 1]                \* big-endian, 1-based index
U16LE(b, i) == b[i] + b[i + 1] * 256
\* 4-octet length: everything of 2^24 or more is beyond any input considered
Huge == 16777216
U32(b, i) == IF b[i] > 0 THEN Huge ELSE b[i + 1] * 65536 + b[i + 2] * 256 + b[i + 3]

\* bit test / mask for one octet
Bit(b, k) == (b \div k) % 2 = 1                   \* k a power of two
RECURSIVE Mask_(_, _, _)
Mask_(b, m, k) == IF k > 128 THEN 0
                  ELSE (IF Bit(b, k) /\ Bit(m, k) THEN k ELSE 0) + Mask_(b, m, k * 2)
Mask(b, m) == Mask_(b, m, 1)

\* ---- strings -----------------------------------------------------------
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexDigitU == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Hex2(b) == HexDigit[(b \div 16) + 1] \o HexDigit[(b % 16) + 1]
Dec(n) == ToString(n)
Dec2(n) == IF n < 10 THEN "0" \o Dec(n) ELSE Dec(n)

RECURSIVE Cat_(_, _, _)
Cat_(s, i, j) == IF i > j THEN "" ELSE IF i = j THEN s[i]
                 ELSE LET m == (i + j) \div 2 IN Cat_(s, i, m) \o Cat_(s, m + 1, j)
Cat(s) == Cat_(s, 1, Len(s))                      \* concatenation of a sequence of strings
HexCat(b) == Cat([i \in 1 .. Len(b) |-> Hex2(b[i])])

RECURSIVE HexNum(_)
HexNum(n) == IF n < 16 THEN HexDigit[n + 1] ELSE HexNum(n \div 16) \o HexDigit[(n % 16) + 1]
RECURSIVE HexNumU(_)
HexNumU(n) == IF n < 16 THEN HexDigitU[n + 1] ELSE HexNumU(n \div 16) \o HexDigitU[(n % 16) + 1]

Ascii ==                                          \* printable ASCII, code 32 first
  << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
     "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
     "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
     "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
     "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
     "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>

\* The harness writes every character outside printable ASCII, and the backslash, as \u{hex}.
Char(cp) == IF cp >= 32 /\ cp <= 126 /\ cp # 92 THEN Ascii[cp - 31]
            ELSE "\\u{" \o HexNum(cp) \o "}"
IsControl(cp) == cp < 32 \/ (cp >= 127 /\ cp < 160)
Pad4(s, n) == IF n < 16 THEN "000" \o s ELSE IF n < 256 THEN "00" \o s
              ELSE IF n < 4096 THEN "0" \o s ELSE s
CodePoint(cp) == "(U+" \o Pad4(HexNumU(cp), cp) \o ")"
ShownChar(cp) == IF IsControl(cp) THEN CodePoint(cp) ELSE Char(cp)

\* ---- UTF-8 (RFC 3629: no overlong forms, no surrogates, at most U+10FFFF) -
Utf8Step(a, x) ==
  IF ~a.ok THEN a
  ELSE IF a.need = 0
    THEN IF x < 128 THEN [a EXCEPT !.out = Append(@, x)]
         ELSE IF x >= 194 /\ x <= 223 THEN [a EXCEPT !.need = 1, !.cp = x - 192, !.lo = 128, !.hi = 191]
         ELSE IF x >= 224 /\ x <= 239
              THEN [a EXCEPT !.need = 2, !.cp = x - 224,
                             !.lo = IF x = 224 THEN 160 ELSE 128,
                             !.hi = IF x = 237 THEN 159 ELSE 191]
         ELSE IF x >= 240 /\ x <= 244
              THEN [a EXCEPT !.need = 3, !.cp = x - 240,
                             !.lo = IF x = 240 THEN 144 ELSE 128,
                             !.hi = IF x = 244 THEN 143 ELSE 191]
         ELSE [a EXCEPT !.ok = FALSE]
    ELSE IF x < a.lo \/ x > a.hi THEN [a EXCEPT !.ok = FALSE]
         ELSE LET cp == a.cp * 64 + (x - 128) IN
              IF a.need = 1
              THEN [a EXCEPT !.need = 0, !.out = Append(@, cp), !.cp = 0]
              ELSE [a EXCEPT !.need = @ - 1, !.cp = cp, !.lo = 128, !.hi = 191]
Utf8(b) == LET r == FoldLeft(Utf8Step, [ok |-> TRUE, need |-> 0, cp |-> 0, lo |-> 0, hi |-> 0, out |-> <<>>], b)
           IN [ok |-> r.ok /\ r.need = 0, cps |-> r.out]
ShownText(cps) == Cat([i \in 1 .. Len(cps) |-> ShownChar(cps[i])])

\* ---- powers of two, printed (AEAD chunk sizes go up to 2^261) ------------
Limb == 100000000
DoubleStep(a, x) == LET d == x * 2 + a.c IN [a EXCEPT !.out = Append(@, d % Limb), !.c = d \div Limb]
DoubleNum(n) == LET r == FoldLeft(DoubleStep, [out |-> <<>>, c |-> 0], n)
                IN IF r.c > 0 THEN Append(r.out, r.c) ELSE r.out     \* little-endian limbs
Pow2(k) == IF k <= 25 THEN <<2 ^ k>>
           ELSE FoldLeft(LAMBDA a, x : DoubleNum(a), <<2 ^ 25>>, [i \in 1 .. k - 25 |-> i])
Pad8(n) == Cat([i \in 1 .. 8 - Len(Dec(n)) |-> "0"]) \o Dec(n)
Pow2Dec(k) == LET n == Pow2(k) m == Len(n) IN
              Cat([i \in 1 .. m |-> IF i = 1 THEN Dec(n[m]) ELSE Pad8(n[m - i + 1])])
=============================================================================
