--------------------------- MODULE MC_GrammarText ---------------------------
(* All texts of at most MaxLines lines over a set of line forms, then one   *)
(* Add; emits each with the grammar it defines.                             *)
EXTENDS GrammarText, Json, IOUtils, FiniteSets
MaxLines == atoi(IOEnv.MAXLINES)
(* "A -> b", "\t-> c A", "d", "", "A ->", "B->b  c", "->", "A -> b -> c", " B -> B\t" *)
Forms == << <<65,32,45,62,32,98>>, <<9,45,62,32,99,32,65>>, <<100>>, <<>>, <<65,32,45,62>>,
            <<66,45,62,98,32,32,99>>, <<45,62>>, <<65,45,62,98,45,62,99>>, <<32,66,32,45,62,32,66,9>> >>
VARIABLES lines, s, st
vars == <<lines, s, st>>
Init == lines = <<>> /\ s = Fresh /\ st = "read"
Read == /\ st = "read" /\ Len(lines) < MaxLines
        /\ \E k \in DOMAIN Forms :
             /\ lines' = Append(lines, Forms[k])
             /\ s' = ReadLine(s, Forms[k])
        /\ UNCHANGED st
Emit == /\ st = "read" /\ st' = "halt" /\ UNCHANGED <<lines, s>>
        /\ PrintT("CASE " \o ToJson([lines |-> lines,
             exp |-> [err |-> IF s.err THEN 1 ELSE 0, g |-> IF s.err THEN EmptyG ELSE s.g]]))
Next == Read \/ Emit
Spec == Init /\ [][Next]_vars

RECURSIVE JoinNl(_)
JoinNl(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<10>> \o JoinNl(Tail(ls))
(* reading line by line is reading the text; order of first appearance; nothing lost *)
SameAsText == lines # <<>> => ReadText(JoinNl(lines)) = s
WellFormed == /\ Len(s.g.nts) = Len(s.g.ps)
              /\ \A k \in DOMAIN s.g.nts : s.g.ps[k] # <<>>
              /\ \A k, m \in DOMAIN s.g.nts : k # m => s.g.nts[k] # s.g.nts[m]
=============================================================================
