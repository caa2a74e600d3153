---------------------------- MODULE MC_Pipeline -----------------------------
(* All histories of CALLS runs with one set of stages: every combination of  *)
(* answers of the stages within the bounds.                                  *)
EXTENDS Pipeline, Json, IOUtils
Calls == atoi(IOEnv.CALLS)
MaxR == atoi(IOEnv.MAXR)
MaxLx == atoi(IOEnv.MAXLX)
LexOut == {[nil |-> 1, n |-> 0, errs |-> <<>>]} \cup
          UNION {{[nil |-> 0, n |-> n, errs |-> e] : e \in {<<>>} \cup {<<x>> : x \in 1..n} \cup {<<x, y>> : x \in 1..n, y \in 1..n}} : n \in 0..MaxLx}
RedOut == {[nil |-> 0, out |-> 0], [nil |-> 0, out |-> 10], [nil |-> 0, out |-> 11]}
Absent == [nil |-> 1, out |-> 0]
VARIABLES pat, hist, c, s
vars == <<pat, hist, c, s>>
RedsFor(p) == {r \in [1..Len(p) -> RedOut \cup {Absent}] : \A i \in 1..Len(p) : (r[i] = Absent) <=> (p[i] = 1)}
Pick(n) == \E l \in {l \in LexOut : Len(l.errs) < 2 \/ l.errs[1] < l.errs[2]}, p \in {0, 1}, r \in RedsFor(pat), i \in {"", "x"} :
             /\ (n > 1 => i = "x")
             /\ (l.nil = 1 \/ l.errs # <<>> => p = 0)       \* not consulted
             /\ (p = 0 => \A j \in DOMAIN r : r[j].nil = 1 \/ r[j].out = 10)
             /\ (\A j \in 2..Len(r) : r[j].nil = 1 \/ r[j].out # 11)
             /\ c' = [in |-> i, lex |-> l, parse |-> p, reds |-> r]
None == [in |-> "-", lex |-> [nil |-> 1, n |-> 0, errs |-> <<>>], parse |-> 0, reds |-> <<>>]
Init == /\ pat \in UNION {[1..k -> {0, 1}] : k \in 0..MaxR}
        /\ hist = <<>> /\ c = None /\ s = [Begin EXCEPT !.pc = "idle"]
Call == /\ s.pc = "idle" /\ Len(hist) < Calls /\ Pick(Len(hist) + 1) /\ s' = Begin /\ UNCHANGED <<pat, hist>>
Work == /\ s.pc \in {"lex", "parse", "reduce"} /\ s' = Step(c, s) /\ UNCHANGED <<pat, hist, c>>
Ret  == /\ s.pc = "end" /\ hist' = Append(hist, [c |-> c, res |-> [tree |-> s.tree, err |-> s.err, log |-> s.log]])
        /\ s' = [Begin EXCEPT !.pc = "idle"] /\ c' = None /\ UNCHANGED pat
Emit == /\ s.pc = "idle" /\ Len(hist) = Calls /\ s' = [s EXCEPT !.pc = "halt"] /\ UNCHANGED <<pat, hist, c>>
        /\ PrintT("CASE " \o ToJson([calls |-> [i \in DOMAIN hist |-> hist[i].c], exp |-> [i \in DOMAIN hist |-> hist[i].res]]))
Next == Call \/ Work \/ Ret \/ Emit
Spec == Init /\ [][Next]_vars

(* an error and a tree exclude each other, and one of them is there *)
Exclusive == s.pc = "end" => (s.err = "") # (s.tree = 0)
(* every stage is called at most once, in order *)
OnceInOrder == \A i, j \in DOMAIN s.log : i < j =>
  \/ s.log[i].ev = "lex" /\ s.log[j].ev \in {"parse", "reduce"}
  \/ s.log[i].ev = "parse" /\ s.log[j].ev = "reduce"
  \/ s.log[i].ev = "reduce" /\ s.log[j].ev = "reduce" /\ s.log[i].arg # s.log[j].arg
(* the machine and the summary operator agree *)
SameAsResult == s.pc = "end" => Result(c) = [tree |-> s.tree, err |-> s.err, log |-> s.log]
=============================================================================
