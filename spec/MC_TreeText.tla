---------------------------- MODULE MC_TreeText -----------------------------
(* All texts of at most MAXLINES lines over a set of line forms.             *)
EXTENDS Trees, Json, IOUtils
MaxLines == atoi(IOEnv.MAXLINES)
Forms == {Ln(0, "", <<>>, 0), Ln(0, "a", <<>>, 0), Ln(0, "b", <<120, 10>>, 0), Ln(0, "a", <<>>, 1),
          Ln(0, "b", <<123>>, 1), Ln(1, "", <<>>, 0), Ln(1, "a", <<>>, 1), Ln(1, "b", <<>>, 0),
          [Ln(0, "", <<>>, 0) EXCEPT !.bad = 1]}
VARIABLES lines, s, st
vars == <<lines, s, st>>
Init == lines = <<>> /\ s = Text0 /\ st = "read"
Read == /\ st = "read" /\ Len(lines) < MaxLines /\ ~s.err
        /\ \E f \in Forms : lines' = Append(lines, f) /\ s' = ReadLine(s, f)
        /\ UNCHANGED st
Emit == /\ st = "read" /\ st' = "halt" /\ UNCHANGED <<lines, s>>
        /\ PrintT("CASE " \o ToJson([lines |-> lines,
              exp |-> IF IsTree(s) THEN [err |-> 0, t |-> <<TreeOf(s)>>] ELSE [err |-> 1, t |-> <<>>]]))
Next == Read \/ Emit
Spec == Init /\ [][Next]_vars
Opened == Cardinality({i \in DOMAIN lines : lines[i].open = 1})
Closed == Cardinality({i \in DOMAIN lines : lines[i].close = 1})
Named == Cardinality({i \in DOMAIN lines : lines[i].k # ""})
(* a text that is a tree has matching braces, loses no node, and printing it and reading that is the identity *)
RoundTrip == IsTree(s) =>
  /\ Opened = Closed /\ Size(TreeOf(s)) = Named
  /\ LET r == ReadLines(Text0, LinesOf(TreeOf(s))) IN IsTree(r) /\ TreeOf(r) = TreeOf(s)
=============================================================================
