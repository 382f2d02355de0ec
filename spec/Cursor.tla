------------------------------- MODULE Cursor -------------------------------
(* C20.  The byte cursor: a buffer and a position.  An operation o has      *)
(* arguments a, b and an observed answer: n, data, err ("" none, "eod" end  *)
(* of data, else another error).  Do(buf, p, o) tells whether the answer is *)
(* one the cursor may give at position p, and the position afterwards.      *)
(* Arguments of magnitude Far stand for all the numbers beyond 32 bits.     *)
EXTENDS Octets

Far == 2000000000
R(ok, p) == [ok |-> ok, pos |-> p]
Failed(o) == o.err # "" /\ o.data = <<>>
Target(n, p, off, whence) ==
  CASE whence = 0 -> off [] whence = 1 -> p + off [] whence = 2 -> n + off [] OTHER -> -1
ValidTarget(n, p, off, whence) ==
  whence \in 0 .. 2 /\ off > -Far /\ off < Far /\ Target(n, p, off, whence) \in 0 .. n
Spaced(b) == Cat([i \in DOMAIN b |-> IF i = 1 THEN Hex2(b[i]) ELSE " " \o Hex2(b[i])])

\* n: size; Slice(i, j): how the octets after the first i up to the j-th are written down; Shown(o, i): whether o shows the octets after the first i
ReadOp(n, p, k, o, Slice(_, _)) ==
  IF k = 0 THEN R(o.data = <<>> /\ (o.err = "" \/ (p = n /\ o.err = "eod")), p)
  ELSE IF k > 0 /\ k <= n - p THEN R(o.err = "" /\ o.data = Slice(p, p + k), p + k)
  ELSE R(Failed(o) /\ (k > 0 => o.err = "eod"), p)
DoSized(n, p, o, Slice(_, _), Shown(_, _)) ==
  CASE o.op \in {"Read", "ReadBytes"} -> ReadOp(n, p, o.a, o, Slice)
    [] o.op = "ReadByte" -> ReadOp(n, p, 1, o, Slice)
    [] o.op = "ReadAt" -> IF ValidTarget(n, p, o.b, 0) THEN ReadOp(n, o.b, o.a, o, Slice) ELSE R(Failed(o), p)
    [] o.op = "Seek" -> IF ValidTarget(n, p, o.a, o.b)
                        THEN R(o.err = "" /\ o.n = Target(n, p, o.a, o.b), Target(n, p, o.a, o.b))
                        ELSE R(o.err # "", p)
    [] o.op = "Read2EOF" -> IF p = n THEN R(o.data = <<>> /\ o.err \in {"", "eod"}, p)
                            ELSE R(o.err = "" /\ o.data = Slice(p, n), n)
    [] o.op = "WriteTo" -> IF o.a = 0 \/ n = 0 THEN R(o.err = "" /\ o.n = n /\ o.data = Slice(0, n), n)
                           \* the destination fails: reported; where the cursor stays is not fixed
                           ELSE R(o.err # "" /\ o.rest \in 0 .. n, n - o.rest)
    [] o.op = "DumpString" -> R(Shown(o, IF o.a >= 0 /\ o.a < n THEN o.a ELSE n), p)
    [] o.op = "GetBody" -> R(o.data = Slice(0, n), p)
    [] OTHER -> R(FALSE, p)

Do(buf, p, o) == DoSized(Len(buf), p, o, LAMBDA i, j : SubSeq(buf, i + 1, j), LAMBDA x, i : x.text = Spaced(SubSeq(buf, i + 1, Len(buf))))
\* a large buffer, no eight octets of which occur twice: octets are written down as their place and number
DoFar(n, p, o) == LET S(i, j) == IF i = j THEN <<>> ELSE <<i, j - i>> IN DoSized(n, p, o, S, LAMBDA x, i : x.data = S(i, n))
=============================================================================
