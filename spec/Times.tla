------------------------------- MODULE Times --------------------------------
(* Calendar dates of 32-bit timestamps (RFC 3339), and of the sum of a      *)
(* timestamp and a 32-bit period, which needs 33 bits and must not wrap.    *)
EXTENDS Octets

\* a time is <<hi, lo>>: hi * 65536 + lo seconds since the epoch
TimeOf(b) == <<U16(b, 1), U16(b, 3)>>
AddTime(a, b) == LET lo == a[2] + b[2] IN <<a[1] + b[1] + (lo \div 65536), lo % 65536>>
ZeroTime(b) == b = <<0, 0, 0, 0>>

\* 65536 = 512 * 128 and 86400 = 675 * 128
DaySec(t) == LET q == t[1] * 512
                 r == (q % 675) * 128 + t[2]
             IN <<(q \div 675) + (r \div 86400), r % 86400>>
\* shift by a zone offset in minutes
Zoned(ds, off) == LET s == ds[2] + off * 60 IN
                  IF s < 0 THEN <<ds[1] - 1, s + 86400>>
                  ELSE IF s >= 86400 THEN <<ds[1] + 1, s - 86400>> ELSE <<ds[1], s>>
\* proleptic Gregorian calendar from days since 1970-01-01
Civil(z0) ==
  LET z == z0 + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      d == doy - ((153 * mp + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d>>
ZoneName(off) == IF off = 0 THEN "Z"
                 ELSE LET a == IF off < 0 THEN -off ELSE off IN
                      (IF off < 0 THEN "-" ELSE "+") \o Dec2(a \div 60) \o ":" \o Dec2(a % 60)
Rfc3339(t, off) ==
  LET z == Zoned(DaySec(t), off)
      c == Civil(z[1])
      s == z[2]
  IN Dec(c[1]) \o "-" \o Dec2(c[2]) \o "-" \o Dec2(c[3]) \o "T" \o Dec2(s \div 3600) \o ":"
     \o Dec2((s \div 60) % 60) \o ":" \o Dec2(s % 60) \o ZoneName(off)
=============================================================================
