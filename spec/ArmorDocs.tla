------------------------------ MODULE ArmorDocs -----------------------------
(* C14.  Documents around an armor block, as sequences of line symbols, and *)
(* the line machine that looks for the block.  All documents up to the      *)
(* bounds are emitted; the harness writes them out with random contents,    *)
(* line lengths and line endings.                                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

MaxPre == atoi(IOEnv.PRE)
MaxHead == atoi(IOEnv.HEAD)
MaxPost == atoi(IOEnv.POST)
PreSyms == {"text", "blank", "dashed", "quoted", "cleartext", "pem", "strayend", "long", "utf8",
            "mention"}
HeadSyms == {"version", "headmention", "longheader", "colons", "unicode", "novalue"}
BodySyms == {"body", "nobody", "badchar", "dropped", "spaced"}
SumSyms == {"sum", "nosum", "badsum", "shortsum", "oddsum", "textaftersum"}
PostSyms == {"text", "blank", "straybegin", "strayend", "dashed", "pem", "mention"}

VARIABLES doc, part, count, scan
vars == <<doc, part, count, scan>>
Init == doc = <<>> /\ part = "pre" /\ count = 0 /\ scan = "outside"

\* the line machine
Scanned(st, s) == IF st = "outside" /\ s \in {"begin", "straybegin"} THEN "inside"
                  ELSE IF st = "inside" /\ s \in {"end", "strayend"} THEN "complete" ELSE st
Put(s) == doc' = Append(doc, s) /\ scan' = Scanned(scan, s)
More(p, max, syms) == part = p /\ count < max /\ count' = count + 1 /\ UNCHANGED part /\ \E s \in syms : Put(s)
Go(from, to, syms) == part = from /\ part' = to /\ count' = 0 /\ \E s \in syms : Put(s)
Faults == \E i \in DOMAIN doc : doc[i] \in (BodySyms \cup SumSyms) \ {"body", "sum", "nosum"}
Next == \/ More("pre", MaxPre, PreSyms)
        \/ Go("pre", "head", {"begin", "nobegin"})
        \/ More("head", MaxHead, HeadSyms)
        \/ Go("head", "body", {"gap"})
        \/ Go("body", "sum", BodySyms)
        \/ Go("sum", "end", IF Faults THEN {"sum", "nosum"} ELSE SumSyms)
        \/ Go("end", "post", IF Faults THEN {"end"} ELSE {"end", "noend"})
        \/ More("post", MaxPost, PostSyms)
Spec == Init /\ [][Next]_vars
Emit == part # "post" \/ PrintT("DOC " \o ToJson(doc))

\* the machine finds a block exactly when there is a start line and an end line after it
Declared == \E i, j \in DOMAIN doc : /\ i < j /\ doc[i] \in {"begin", "straybegin"}
                                     /\ doc[j] \in {"end", "strayend"}
Found == (scan = "complete") = Declared
\* text before and after never hides a block
Kept == (part = "post" /\ \E i \in DOMAIN doc : doc[i] = "begin" /\ \E j \in i .. Len(doc) : doc[j] = "end") => scan = "complete"
=============================================================================
