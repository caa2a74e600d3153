----------------------------- MODULE MC_Render ------------------------------
(* All lists of at most MAXIN lexemes over few kinds, values and positions,  *)
(* written by the one-pass machine; its texts are those of the definitions.  *)
EXTENDS Render, Json, IOUtils
MaxIn == atoi(IOEnv.MAXIN)
Kinds == {<<97>>, <<69, 39>>, <<>>}
Values == {<<>>, <<120>>, <<34, 10>>}
Poss == {<<-1, 0>>, <<0, 0>>, <<0, 3>>, <<1, 0>>, <<12, 10>>}
Lxs == [k : Kinds, v : Values, p : Poss, err : {0, 1}]
Few == {x \in Lxs : (x.v = <<>> \/ x.p \in {<<-1, 0>>, <<12, 10>>}) /\ (x.k # <<>> \/ x.p = <<1, 0>>)}
L(x) == [k |-> x.k, v |-> x.v, l |-> x.p[1], c |-> x.p[2], err |-> x.err]
VARIABLES ls, w, st
vars == <<ls, w, st>>
Init == ls = <<>> /\ w = Empty /\ st = "walk"
Step == /\ st = "walk" /\ Len(ls) < MaxIn
        /\ \E x \in (IF Len(ls) < 1 THEN Lxs ELSE Few) : ls' = Append(ls, L(x)) /\ w' = Walk(w, L(x))
        /\ UNCHANGED st
Emit == /\ st = "walk" /\ st' = "halt" /\ UNCHANGED <<ls, w>>
        /\ PrintT("CASE " \o ToJson([ls |-> ls, exp |-> [str |-> LexemeString(ls), list |-> LexemeList(ls), errs |-> LexErrors(ls),
                                                        own |-> [i \in DOMAIN ls |-> Own(ls[i])]]]))
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
OnePass == /\ LexemeList(ls) = w.n
           /\ LexErrors(ls) = w.e
           /\ (Len(ls) > 1 => LexemeString(ls) = <<91>> \o w.s \o <<93>>)
           /\ (Len(ls) = 1 => LexemeString(ls) = w.s)
ReadBack == \A i \in DOMAIN ls : Unquoted(Escapes(ls[i].v)) = ls[i].v
OneLineEach == ls = <<>> \/ Len(SelectSeq(LexemeList(ls), LAMBDA b : b = 10)) = Len(ls) - 1
=============================================================================
