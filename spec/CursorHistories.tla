--------------------------- MODULE CursorHistories --------------------------
(* C20.  All operation sequences up to DEPTH on buffers of SIZE octets,     *)
(* with every argument around and far beyond the limits.  The answers are   *)
(* those of an ideal cursor, defined here directly; the sequences are       *)
(* replayed on the real one.                                                *)
EXTENDS Cursor, Json, IOUtils, FiniteSets

Size == atoi(IOEnv.SIZE)
Depth == atoi(IOEnv.DEPTH)
Buffer == [i \in 1 .. Size |-> 16 * i + i]
Nums == (-(Size + 1) .. Size + 2) \cup {Far, -Far}
Op(o, a, b) == [op |-> o, a |-> a, b |-> b]
Ops == {Op("Read", k, 0) : k \in 0 .. Size + 2} \cup {Op("ReadBytes", k, 0) : k \in Nums} \cup {Op("ReadByte", 0, 0)}
       \cup {Op("ReadAt", k, f) : k \in {0, 1, 2, Size, Size + 1}, f \in Nums} \cup {Op("Seek", f, w) : f \in Nums, w \in -1 .. 3}
       \cup {Op("Read2EOF", 0, 0), Op("WriteTo", 0, 0), Op("WriteTo", 1, 0), Op("GetBody", 0, 0)}
       \cup {Op("DumpString", f, 0) : f \in Nums}

VARIABLES history, pos
vars == <<history, pos>>
\* the ideal answers
Answer(o, n, data, err, text, rest) == [op |-> o.op, a |-> o.a, b |-> o.b, n |-> n, data |-> data, err |-> err, text |-> text, rest |-> rest]
IdealRead(o, p, k) ==
  IF k = 0 THEN [p |-> p, d |-> <<>>, e |-> ""]
  ELSE IF k < 0 \/ k > Size - p THEN [p |-> p, d |-> <<>>, e |-> "eod"]
  ELSE [p |-> p + k, d |-> [i \in 1 .. k |-> Buffer[p + i]], e |-> ""]
Ideal(o, p) ==
  LET rd(q, k) == LET x == IdealRead(o, q, k) IN [pos |-> x.p, a |-> Answer(o, Len(x.d), x.d, x.e, "", Size - x.p)]
      t == CASE o.b = 0 -> o.a [] o.b = 1 -> p + o.a [] OTHER -> Size + o.a
      bad == [pos |-> p, a |-> Answer(o, p, <<>>, "bad", "", Size - p)]
  IN CASE o.op \in {"Read", "ReadBytes"} -> rd(p, o.a)
       [] o.op = "ReadByte" -> rd(p, 1)
       [] o.op = "ReadAt" -> IF o.b \in 0 .. Size THEN rd(o.b, o.a) ELSE bad
       [] o.op = "Seek" -> IF o.b \in 0 .. 2 /\ t \in 0 .. Size THEN [pos |-> t, a |-> Answer(o, t, <<>>, "", "", Size - t)] ELSE bad
       [] o.op = "Read2EOF" -> [pos |-> Size, a |-> Answer(o, Size - p, SubSeq(Buffer, p + 1, Size), IF p = Size THEN "eod" ELSE "", "", 0)]
       [] o.op = "WriteTo" -> IF o.a = 0 \/ Size = 0 THEN [pos |-> Size, a |-> Answer(o, Size, Buffer, "", "", 0)] ELSE bad
       [] o.op = "GetBody" -> [pos |-> p, a |-> Answer(o, Size, Buffer, "", "", Size - p)]
       [] OTHER -> [pos |-> p, a |-> Answer(o, 0, <<>>, "", IF o.a \in 0 .. Size - 1 THEN Spaced(SubSeq(Buffer, o.a + 1, Size)) ELSE "", Size - p)]

Init == history = <<>> /\ pos = 0
Step(o) ==
  LET x == Ideal(o, pos) IN
  /\ Assert(Do(Buffer, pos, x.a) = R(TRUE, x.pos), <<"the ideal cursor is not allowed", pos, x>>)
  /\ pos' = x.pos /\ history' = Append(history, o)
  /\ IF Len(history') < Depth THEN TRUE ELSE PrintT("HIST " \o ToJson([size |-> Size, ops |-> history']))
Next == Len(history) < Depth /\ \E o \in Ops : Step(o)
Spec == Init /\ [][Next]_vars
Inside == pos \in 0 .. Size
=============================================================================
