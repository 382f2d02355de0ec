-------------------------------- MODULE Bulk --------------------------------
(* Packets too large to be written out octet by octet.  A body is a short   *)
(* head, n equal octets and a short tail; what a dump shows for it follows  *)
(* from what Packets says about the same body with two and three of them:   *)
(* whatever differs between these two grows with n, by one per octet.  The  *)
(* head does not end and the tail does not begin with the repeated octet.   *)
(*                                                                          *)
(* packet     [tag, head, fill, n, tail, c]   (c = <<>>)                    *)
(* compressed [tag = 8, alg, z, inner, total]: z octets of compressed data, *)
(*            holding the packets inner, total octets long                  *)
EXTENDS Packets

Limit == 1073741824          \* data that expands to this or more may be left unexpanded, which has to be said

\* runs <<octet, count>> of a sequence of octets
AddRun(rs, x) == IF rs # <<>> /\ rs[Len(rs)][1] = x THEN [rs EXCEPT ![Len(rs)][2] = @ + 1] ELSE Append(rs, <<x, 1>>)
Runs(o) == FoldLeft(AddRun, <<>>, o)
\* the place where two sequences (or texts) part
Parts(a, b) == CHOOSE i \in 1 .. Len(b) : SubSeq(a, 1, i - 1) = SubSeq(b, 1, i - 1) /\ (i > Len(a) \/ SubSeq(a, i, i) # SubSeq(b, i, i))
\* runs of a with one of them, the one that differs in b, longer by k
LongerBy(rs, other, k) == [rs EXCEPT ![CHOOSE i \in DOMAIN rs : rs[i] # other[i]][2] = @ + k]

\* what a text shows when two of its characters, three in b, grow into n: runs of 64 and more are written {octet*count}
Stretch(a, b, n, fill) == IF a = b THEN a
  ELSE LET i == Parts(a, b) IN SubSeq(a, 1, i - 3) \o "{" \o Dec(fill) \o "*" \o Dec(n) \o "}" \o SubSeq(a, i, Len(a))
Grown(t, k) == LET m == CHOOSE j \in 0 .. 300 : t = Bytes(j) IN Bytes(m + k)
RECURSIVE Grow(_, _, _, _)
Grow(a, b, n, fill) ==
  [n |-> a.n,
   v |-> Stretch(a.v, b.v, n, fill),
   t |-> IF a.t = b.t THEN a.t ELSE Grown(a.t, n - 2),
   d |-> IF ~a.d.on THEN <<>> ELSE IF a.d.o = b.d.o THEN Runs(a.d.o) ELSE LongerBy(Runs(a.d.o), Runs(b.d.o), n - 2),
   c |-> [i \in DOMAIN a.c |-> Grow(a.c[i], b.c[i], n, fill)]]

Sample(p, k, cx, o) == Decode(p.tag, p.head \o [i \in 1 .. k |-> p.fill] \o p.tail, cx, o)
Bulky(p, cx, o) == LET a == Sample(p, 2, cx, o) b == Sample(p, 3, cx, o) IN
  IF p.n >= 64 THEN [cx |-> a.cx, e |-> Grow(a.e, b.e, p.n, p.fill)]
  ELSE LET s == Sample(p, p.n, cx, o) IN [cx |-> s.cx, e |-> Grow(s.e, s.e, 2, p.fill)]

InnerStep(acc, p) == LET r == Bulky(p, acc.cx, acc.o) IN [acc EXCEPT !.cx = r.cx, !.es = Append(@, r.e)]
Leaf(n, v, t) == [n |-> n, v |-> v, t |-> t, d |-> <<>>, c |-> <<>>]
\* compressed data, fully expanded
Squeezed(p, cx, o) ==
  LET in == FoldLeft(InnerStep, [cx |-> cx, o |-> o, es |-> <<>>], p.inner) IN
  [cx |-> in.cx,
   e |-> [n |-> TagName(8), v |-> "", t |-> Bytes(p.z + 1), d |-> <<>>,
          c |-> <<Leaf(IdLabel("comp"), IdName("comp", p.alg), ""), Leaf("Compressed data", "", Bytes(p.z))>> \o in.es]]
\* left unexpanded
Unexpanded(p) ==
  [n |-> TagName(8), v |-> "", t |-> Bytes(p.z + 1), d |-> <<>>,
   c |-> <<Leaf(IdLabel("comp"), IdName("comp", p.alg), ""), Leaf("Compressed data", "<too laege decompressed data>", Bytes(p.z))>>]
=============================================================================
