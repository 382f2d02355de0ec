------------------------------- MODULE Judge --------------------------------
(* Comparison of an expected entry e (Packets) with an observed entry g,    *)
(* projected onto what one property talks about.  An observed entry is      *)
(* [n, v, t, d, c] with d the dumped octets (<<>> when nothing is dumped).  *)
EXTENDS Packets

ExpiryNames == TLCEval({SubName(3), SubName(131), SubName(9), SubName(137)})
AreaNames == {"Hashed Subpacket", "Unhashed Subpacket", "Subpacket"}

\* dump as the options demand / dump content only (options are C12's business)
DumpStrict(e, g) == g.d = (IF e.d.on THEN e.d.o ELSE <<>>)
DumpLoose(e, g) == IF e.d.opt THEN g.d \in {<<>>, e.d.o} ELSE DumpStrict(e, g)

Label(e, g) == e.n = g.n /\ e.v = g.v /\ e.t = g.t
\* a period and its end: the end (note) belongs to C10
LabelNoEnd(e, g) == e.n = g.n /\ e.v = g.v /\ (e.n \in ExpiryNames \/ e.t = g.t)
RECURSIVE Same(_, _), SameStrict(_, _)
Same(e, g) == /\ LabelNoEnd(e, g) /\ DumpLoose(e, g) /\ Len(e.c) = Len(g.c)
              /\ \A i \in DOMAIN e.c : Same(e.c[i], g.c[i])
SameStrict(e, g) == /\ Label(e, g) /\ DumpStrict(e, g) /\ Len(e.c) = Len(g.c)
                    /\ \A i \in DOMAIN e.c : SameStrict(e.c[i], g.c[i])
SameList(es, gs) == Len(es) = Len(gs) /\ \A i \in DOMAIN es : Same(es[i], gs[i])
Shallow(e, g) == Label(e, g) /\ DumpLoose(e, g)

\* all entries of a tree in display order
RECURSIVE Walk(_)
Walk(e) == <<e>> \o FlattenSeq([i \in DOMAIN e.c |-> Walk(e.c[i])])
Pick(e, Test(_)) == SelectSeq(Walk(e), Test)
Pairwise(es, gs, Rel(_, _)) == Len(es) = Len(gs) /\ \A i \in DOMAIN es : Rel(es[i], gs[i])

Areas(e) == SelectSeq(e.c, LAMBDA x : x.n \in AreaNames)
IdLabels == {IdLabel(k) : k \in {"pub", "sym", "hash", "comp", "aead", "s2k", "sig"}}
Coded == TLCEval(IdLabels \cup {"Version"} \cup {TagName(k) : k \in 0 .. 63} \cup {SubName(k) : k \in 0 .. 255} \cup {AttrName(k) : k \in 0 .. 255})
Dated == TLCEval({"Public key creation time", "Signature creation time", "Creation time", SubName(2), SubName(130)})
TextNames == TLCEval({"User ID", "File name", "Name", "Value", "Additional resultrmation", "Literal data format"}
             \cup {SubName(k) : k \in {6, 24, 26, 28, 134, 152, 154, 156}})

OnSig(e, g) ==      \* the fields of a signature packet, areas as a whole
  /\ Label(e, g) /\ Len(e.c) = Len(g.c)
  /\ \A i \in DOMAIN e.c : IF e.c[i].n \in AreaNames THEN Shallow(e.c[i], g.c[i]) ELSE Same(e.c[i], g.c[i])
OnAreas(e, g) == SameList(Areas(e), Areas(g))
OnEnds(e, g) == LET T(x) == x.n \in ExpiryNames IN
  Pairwise(Pick(e, T), Pick(g, T), LAMBDA a, b : a.n = b.n /\ a.t = b.t)
OnRemark(e, g) == LET T(x) == x.n = "Encrypted data" IN
  Pairwise(Pick(e, T), Pick(g, T), LAMBDA a, b : a.v = b.v /\ a.t = b.t)
OnBulk(e, g) == /\ Label(e, g) /\ Len(e.c) = Len(g.c)
                /\ \A i \in DOMAIN e.c : e.c[i].n = g.c[i].n /\ DumpLoose(e.c[i], g.c[i])
OnInner(e, g) == /\ Label(e, g) /\ Len(e.c) = Len(g.c)
                 /\ \A i \in DOMAIN e.c : Shallow(e.c[i], g.c[i])
OnCodes(e, g) == LET T(x) == x.n \in Coded \/ x.n \in Dated IN
  Pairwise(Pick(e, T), Pick(g, T), LAMBDA a, b : a.n = b.n /\ a.v = b.v /\ (a.n # "Version" \/ a.t = b.t))
OnText(e, g) == LET T(x) == x.n \in TextNames IN
  Pairwise(Pick(e, T), Pick(g, T), LAMBDA a, b : Label(a, b) /\ DumpLoose(a, b))

Everything == 0 .. 63
\* the packets a property speaks about
Owns(prop, tag) ==
  CASE prop \in {"C02", "C03", "C12", "C16", "C22", "ALL"} -> TRUE
    [] prop = "C01" -> FALSE
    [] prop = "C04" -> tag = 2
    [] prop = "C05" -> tag \in {2, 17}
    [] prop = "C06" -> tag \in {6, 14}
    [] prop = "C07" -> tag \in {5, 7}
    [] prop = "C08" -> tag \in {1, 3, 4, 9, 18, 19, 20}
    [] prop = "C09" -> tag \in {2, 8, 9, 18}
    [] prop = "C10" -> tag \in {2, 8}
    [] prop = "C11" -> tag = 8
    [] prop = "C23" -> tag \in Everything \ {1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 18, 19, 20}
Agrees(prop, tag, e, g) ==
  CASE prop = "ALL" -> SameStrict(e, g)
    [] prop \in {"C01", "C03"} -> TRUE
    [] prop = "C02" -> e.n = g.n /\ e.v = g.v /\ e.t = g.t
    [] prop = "C04" -> OnSig(e, g)
    [] prop = "C05" -> OnAreas(e, g)
    [] prop \in {"C06", "C07", "C23"} -> Same(e, g)
    [] prop = "C08" -> IF tag \in {9, 18} THEN OnBulk(e, g) ELSE Same(e, g)
    [] prop = "C09" -> OnRemark(e, g)
    [] prop = "C10" -> OnEnds(e, g)
    [] prop = "C11" -> OnInner(e, g)
    [] prop = "C12" -> SameStrict(e, g)
    [] prop = "C16" -> OnText(e, g)
    [] prop = "C22" -> OnCodes(e, g)
\* properties that also judge whether damage is reported
JudgesDamage(prop, tag) == \/ prop \in {"C03", "ALL"}
                           \/ prop \in {"C04", "C05", "C06", "C07", "C08", "C11", "C23"} /\ tag >= 0 /\ Owns(prop, tag)
=============================================================================
