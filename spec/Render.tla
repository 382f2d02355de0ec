------------------------------- MODULE Render -------------------------------
(* The two written forms of a result tree.  An entry is [n, v, t, d, c]:    *)
(* name, value, note, dump (a string here), children.                       *)
EXTENDS Octets

NL == "\\u{a}"        \* control characters are written as code points by the harness
TAB == "\\u{9}"
Title(e) == e.n \o (IF e.v = "" THEN "" ELSE ": " \o e.v) \o (IF e.t = "" THEN "" ELSE " (" \o e.t \o ")")
RECURSIVE Lines(_, _)
Lines(e, lv) == <<[lv |-> lv, s |-> Title(e)]>>
                \o (IF e.d = "" THEN <<>> ELSE <<[lv |-> lv + 1, s |-> e.d]>>)
                \o FlattenSeq([i \in DOMAIN e.c |-> Lines(e.c[i], lv + 1)])
AllLines(es) == FlattenSeq([i \in DOMAIN es |-> Lines(es[i], 0)])
Repeat(s, n) == Cat([i \in 1 .. n |-> s])
Text(es, indent) == LET l == AllLines(es) IN
                    Cat([i \in DOMAIN l |-> Repeat(indent, l[i].lv) \o l[i].s \o NL])
\* the command line: --indent n
IndentOf(n) == IF n > 0 THEN Repeat(" ", n) ELSE TAB

\* the JSON form is compared as the tree it decodes to; layout: white space per level (0: one line)
Layout(es, n) == IF n <= 0 \/ es = <<>> THEN 0 ELSE n
=============================================================================
