-------------------------------- MODULE Armor -------------------------------
(* ASCII armor, on octets: lines, the first complete block, header lines,   *)
(* radix-64 body, CRC-24.  Verdict(d, only) says what a dump of document d  *)
(* must be based on: the payload of its block, an error, or nothing can be  *)
(* said ("silent": outside the format and not covered by the property).     *)
EXTENDS Octets, Bitwise

Code(c) == CHOOSE i \in 32 .. 126 : Ascii[i - 31] = c
Str(s) == [i \in DOMAIN s |-> Code(s[i])]
Dashes == Str(<<"-", "-", "-", "-", "-">>)
BeginPgp == Dashes \o Str(<<"B", "E", "G", "I", "N", " ", "P", "G", "P">>)
Signed == BeginPgp \o Str(<<" ", "S", "I", "G", "N", "E", "D">>)
EndPgp == Dashes \o Str(<<"E", "N", "D", " ", "P", "G", "P">>)

Starts(l, p) == Len(l) >= Len(p) /\ \A i \in DOMAIN p : l[i] = p[i]
IsStart(l) == Starts(l, BeginPgp) /\ ~Starts(l, Signed)
IsEnd(l) == Starts(l, EndPgp)
Space == {9, 11, 12, 13, 32}
IsBlank(l) == \A i \in DOMAIN l : l[i] \in Space
\* "Key: value"; a value may be missing, and the space before it with it
LastInk(l) == LET S == {i \in DOMAIN l : l[i] \notin Space} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
IsHeader(l) == \/ \E i \in 2 .. Len(l) - 2 : l[i] = 58 /\ l[i + 1] = 32 /\ \E k \in i + 2 .. Len(l) : l[k] \notin Space
               \/ LET m == LastInk(l) IN m > 1 /\ l[m] = 58 /\ \E k \in 1 .. m - 1 : l[k] \notin Space

\* ---- lines: ended by LF or CR LF, the last one by the end of the input --------
Lines(d) ==
  LET nl == SelectSeq([i \in DOMAIN d |-> i], LAMBDA i : d[i] = 10)
      ends == IF d = <<>> \/ d[Len(d)] = 10 THEN nl ELSE Append(nl, Len(d) + 1)
      at(i) == SubSeq(d, IF i = 1 THEN 1 ELSE ends[i - 1] + 1, ends[i] - 1)
  IN [i \in DOMAIN ends |-> LET l == at(i) IN IF l # <<>> /\ l[Len(l)] = 13 THEN SubSeq(l, 1, Len(l) - 1) ELSE l]

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
First(S) == IF S = {} THEN 0 ELSE MinOf(S)

\* ---- radix 64 ---------------------------------------------------------------------
Alpha64 == [c \in 0 .. 255 |-> IF c \in 65 .. 90 THEN c - 65 ELSE IF c \in 97 .. 122 THEN c - 71
                               ELSE IF c \in 48 .. 57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1]
PadChar == 61
Value64(c) == IF c = PadChar THEN 0 ELSE Alpha64[c]
\* s: only alphabet and padding characters, a multiple of four
Octet64(s, i) ==            \* i: 0-based octet
  LET q == (i \div 3) * 4 v(k) == Value64(s[q + k]) IN
  CASE i % 3 = 0 -> v(1) * 4 + v(2) \div 16
    [] i % 3 = 1 -> (v(2) % 16) * 16 + v(3) \div 4
    [] OTHER -> (v(3) % 4) * 64 + v(4)
TrailingPad(s) == LET n == Len(s) IN
  IF n = 0 \/ s[n] # PadChar THEN 0 ELSE IF n = 1 \/ s[n - 1] # PadChar THEN 1 ELSE 2
Decode64(s) == [i \in 1 .. (Len(s) \div 4) * 3 - TrailingPad(s) |-> Octet64(s, i - 1)]
\* ls: body lines.  "ok", "error", or "silent" (padding at the end of a line that is not the last)
Shape64(ls) ==
  LET s == FlattenSeq(ls)
      k == TrailingPad(s)
      inner == {i \in 1 .. Len(s) - k : s[i] = PadChar}
      tail == SelectSeq(ls, LAMBDA l : l # <<>>)
  IN IF \E i \in DOMAIN s : s[i] # PadChar /\ Alpha64[s[i]] = -1 THEN "error"
     ELSE IF inner # {} THEN (IF \E i \in 1 .. Len(tail) - 1 : tail[i][Len(tail[i])] = PadChar THEN "silent" ELSE "error")
     ELSE IF Len(s) % 4 # 0 THEN "error"
     ELSE "ok"

\* ---- CRC-24 (RFC 4880, 6.1) --------------------------------------------------------
RECURSIVE CrcBits(_, _)
CrcBits(c, n) == IF n = 0 THEN c
                 ELSE CrcBits(IF c >= 8388608 THEN ((c - 8388608) * 2) ^^ 8801531 ELSE c * 2, n - 1)
CrcTable == [b \in 0 .. 255 |-> CrcBits(b * 65536, 8)]
CrcStep(c, b) == ((c % 65536) * 256) ^^ CrcTable[(c \div 65536) ^^ b]
Crc(d) == FoldLeft(CrcStep, 11994318, d)

\* ---- verdict --------------------------------------------------------------------------
V(v, d) == [v |-> v, data |-> d]
MaxLine == 76
IsSum(l) == Len(l) = 5 /\ l[1] = PadChar
SumOf(l) == LET o == Decode64(SubSeq(l, 2, 5)) IN o[1] * 65536 + o[2] * 256 + o[3]
\* ls: the lines between the blank line and the end line
Body(ls) ==
  LET c == First({i \in DOMAIN ls : IsSum(ls[i])})
      text == IF c = 0 THEN ls ELSE SubSeq(ls, 1, c - 1)
      after == IF c = 0 THEN <<>> ELSE SubSeq(ls, c + 1, Len(ls))
      shape == Shape64(text)
      data == Decode64(FlattenSeq(text))
      sum == ls[c]
      sumChars == SubSeq(sum, 2, 5)
      stray == \E i \in DOMAIN text : \E j \in DOMAIN text[i] : text[i][j] = 13     \* a lone CR may be taken as a line end
  IN IF \E i \in DOMAIN text : Len(text[i]) > MaxLine THEN V("silent", <<>>)
     ELSE IF stray THEN V("silent", <<>>)
     ELSE IF shape = "silent" THEN V("silent", <<>>)
     ELSE IF shape = "error" THEN V("error", <<>>)
     ELSE IF c = 0 THEN V("payload", data)
     ELSE IF \E i \in DOMAIN after : ~IsBlank(after[i]) THEN V("error", <<>>)
     ELSE IF after # <<>> THEN V("silent", <<>>)
     ELSE IF Shape64(<<sumChars>>) # "ok" THEN V("error", <<>>)
     ELSE IF TrailingPad(sumChars) > 0 THEN V("short", <<>>)
     ELSE IF SumOf(sum) = Crc(data) THEN V("payload", data)
     ELSE V("error", <<>>)
Verdict(d, only) ==
  LET ls == Lines(d)
      b == First({i \in DOMAIN ls : IsStart(ls[i])})
      e == IF b = 0 THEN 0 ELSE First({i \in b + 1 .. Len(ls) : IsEnd(ls[i])})
      k == IF e = 0 THEN 0 ELSE First({i \in b + 1 .. e - 1 : IsBlank(ls[i])})
  IN IF e = 0 THEN (IF only THEN V("error", <<>>)
                    \* without a complete block the input is taken as packets; text is none
                    ELSE IF b > 0 /\ d[1] < 128 THEN V("error", <<>>) ELSE V("silent", <<>>))
     ELSE IF k = 0 \/ \E i \in b + 1 .. k - 1 : ~IsHeader(ls[i]) THEN V("silent", <<>>)
     ELSE Body(SubSeq(ls, k + 1, e - 1))
=============================================================================
