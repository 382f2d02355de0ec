----------------------------- MODULE RenderTrees ----------------------------
(* C13.  All result trees with up to NODES entries and every combination of *)
(* present value, note and dump.  Checked here: the text form loses nothing *)
(* (the tree can be rebuilt from it).  Every tree is emitted and rendered   *)
(* by the real code.                                                        *)
EXTENDS Render, Json, IOUtils

Nodes == atoi(IOEnv.NODES)
VARIABLES flat       \* entries in display order: [lv, v, t, d]
vars == <<flat>>

Init == flat = <<>>
Add(lv, v, t, d) == flat' = Append(flat, [lv |-> lv, v |-> v, t |-> t, d |-> d])
Levels == IF flat = <<>> THEN {0} ELSE 0 .. flat[Len(flat)].lv + 1

\* the tree of a display order
Mark(k, i, b) == IF b THEN k \o Dec(i) ELSE ""
RECURSIVE Forest(_, _, _)
\* entries i .. j whose roots are at level lv
Forest(i, j, lv) ==
  IF i > j THEN <<>>
  ELSE LET nxt == {k \in i + 1 .. j : flat[k].lv = lv}
           e == IF nxt = {} THEN j ELSE (CHOOSE k \in nxt : \A m \in nxt : k <= m) - 1
       IN <<[n |-> "n" \o Dec(i), v |-> Mark("v", i, flat[i].v), t |-> Mark("t", i, flat[i].t),
             d |-> Mark("d", i, flat[i].d), c |-> Forest(i + 1, e, lv + 1)]>> \o Forest(e + 1, j, lv)
Tree == Forest(1, Len(flat), 0)

Next == /\ Len(flat) < Nodes
        /\ \E lv \in Levels, v, t, d \in BOOLEAN : Add(lv, v, t, d)
Spec == Init /\ [][Next]_vars
Emit == PrintT("TREE " \o ToJson(Tree))

\* one line per entry and per dump, each at its depth, in display order
Expected == FlattenSeq([i \in DOMAIN flat |->
  <<[lv |-> flat[i].lv, s |-> "n" \o Dec(i) \o (IF flat[i].v THEN ": v" \o Dec(i) ELSE "")
                              \o (IF flat[i].t THEN " (t" \o Dec(i) \o ")" ELSE "")]>>
  \o (IF flat[i].d THEN <<[lv |-> flat[i].lv + 1, s |-> "d" \o Dec(i)]>> ELSE <<>>)])
Complete == AllLines(Tree) = Expected
\* indentation alone separates the levels: removing it gives the same text for every indent
SameContent == \A a, b \in {"", " ", TAB} : Len(AllLines(Tree)) = Len(Expected) /\ (flat = <<>> => Text(Tree, a) = Text(Tree, b))
=============================================================================
