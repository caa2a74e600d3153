--------------------------- MODULE MC_ReducerText ---------------------------
(* All token sequences of at most MAXTOK tokens that extend a viable prefix. *)
EXTENDS ReducerText, Json, IOUtils
MaxTok == atoi(IOEnv.MAXTOK)
Tok(t) == [t |-> t, n |-> 0, v |-> ""]
Toks == {Tok("PromoteSingleChild"), Tok("RemoveChild"), Tok("RemoveChildren"), Tok("RemoveAll"), Tok("Nil"), Tok("If"), Tok("ChildIs"),
         Tok("lp"), Tok("rp"), Tok("comma"), Tok("period"), [Tok("rule") EXCEPT !.v = "A"], [Tok("num") EXCEPT !.n = -1], [Tok("str") EXCEPT !.v = "B"]}
Lf(k) == [k |-> k, v |-> <<>>, l |-> 1, c |-> 1, ch |-> <<>>]
Sample == [Lf("A") EXCEPT !.ch = <<Lf("B"), [Lf("A") EXCEPT !.ch = <<Lf("B")>>], Lf("C")>>]
VARIABLES ts, st
vars == <<ts, st>>
P == ParseReducer(ts)
Viable == P.ok \/ P.p > Len(ts)
Init == ts = <<>> /\ st = "type"
Type == /\ st = "type" /\ Len(ts) < MaxTok /\ Viable
        /\ \E t \in Toks : ts' = Append(ts, t)
        /\ UNCHANGED st
Emit == /\ st = "type" /\ st' = "halt" /\ UNCHANGED ts
        /\ PrintT("CASE " \o ToJson([ts |-> ts, tree |-> Sample,
             exp |-> IF P.ok THEN [ok |-> 1, out |-> <<Reduce(P.R, Sample)>>] ELSE [ok |-> 0, out |-> <<>>]]))
Next == Type \/ Emit
Spec == Init /\ [][Next]_vars
(* a rule per "rule" token, and a text with an error inside stays one *)
RulesCounted == P.ok => Len(P.R) = Cardinality({i \in DOMAIN ts : ts[i].t = "rule"})
=============================================================================
