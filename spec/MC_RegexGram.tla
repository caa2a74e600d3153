---------------------------- MODULE MC_RegexGram ----------------------------
(* All token sequences of at most MAXTOK tokens that extend a viable prefix. *)
EXTENDS RegexGram, Json, IOUtils
MaxTok == atoi(IOEnv.MAXTOK)
N == atoi(IOEnv.MAXLEN)
Tok(t) == [t |-> t, v |-> ""]
Toks == {Tok("nl"), Tok("rarr"), Tok("rep"), Tok("opt"), Tok("or"), Tok("lp"), Tok("rp"),
         [t |-> "sym", v |-> "S"], [t |-> "sym", v |-> "a"], [t |-> "sym", v |-> "a_b"]}
Lead == <<[t |-> "sym", v |-> "S"], Tok("rarr")>>
VARIABLES ts, st
vars == <<ts, st>>
P == ParseText(ts)
Viable == P.ok \/ P.p > Len(Norm(ts))
Init == ts = Lead /\ st = "type"
Type == /\ st = "type" /\ Len(ts) < MaxTok /\ Viable
        /\ \E t \in Toks : ~(t.t = "nl" /\ T(ts, Len(ts)) = "nl") /\ ts' = Append(ts, t)
        /\ UNCHANGED st
Emit == /\ st = "type" /\ st' = "halt" /\ UNCHANGED ts
        /\ PrintT("CASE " \o ToJson([ts |-> ts, exp |->
             IF P.ok THEN [ok |-> 1, nts |-> NtOrder(P.D), alts |-> [i \in DOMAIN NtOrder(P.D) |-> AltsOf(P.D, NtOrder(P.D)[i], 1, <<>>)]]
             ELSE [ok |-> 0, nts |-> <<>>, alts |-> <<>>]]))
Next == Type \/ Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The two readings of the notation agree: translating every repetition X*   *)
(* into a non-terminal H -> X H | empty and taking the plain alternatives    *)
(* gives the language of the expressions.                                    *)
RECURSIVE Name(_)
RECURSIVE NameAll(_, _)
NameAll(a, i) == IF i > Len(a) THEN <<>> ELSE <<Name(a[i])>> \o NameAll(a, i + 1)
Name(e) == <<e.o, e.v, NameAll(e.a, 1)>>
RECURSIVE Reps(_)
Reps(e) == (IF e.o = "rep" THEN {e} ELSE {}) \cup UNION {Reps(e.a[i]) : i \in DOMAIN e.a}
RECURSIVE XAlts(_), XSeq(_, _)
XSeq(a, i) == IF i > Len(a) THEN {<<>>} ELSE {x \o y : <<x, y>> \in XAlts(a[i]) \X XSeq(a, i + 1)}
XAlts(e) == CASE e.o = "sym" -> {<<ToString(<<"s", e.v>>)>>}
              [] e.o = "rep" -> {<<ToString(Name(e))>>}
              [] e.o = "opt" -> XAlts(e.a[1]) \cup {<<>>}
              [] e.o = "or"  -> UNION {XAlts(e.a[i]) : i \in DOMAIN e.a}
              [] e.o = "seq" -> XSeq(e.a, 1)
XP(D) ==
  LET R == UNION {Reps(D[i].e) : i \in DOMAIN D}
      nt == {ToString(<<"s", A>>) : A \in Defined(D)}
      H == {ToString(Name(e)) : e \in R}
      rhs(x) == UNION {XAlts(D[i].e) : i \in {i \in DOMAIN D : ToString(<<"s", D[i].nt>>) = x}}
                \cup UNION {{<<>>} \cup {y \o <<x>> : y \in XAlts(e.a[1])} : e \in {e \in R : ToString(Name(e)) = x}}
  IN [x \in nt \cup H |-> rhs(x)]
RECURSIVE XFix(_, _, _), XLang(_, _, _, _)
XLang(X, L, r, k) == IF k > Len(r) THEN {<<>>}
                     ELSE LET hd == IF r[k] \in DOMAIN X THEN L[r[k]] ELSE {<<r[k]>>} IN Cat(hd, XLang(X, L, r, k + 1), N)
XFix(X, L, n) == LET M == TLCEval([A \in DOMAIN X |-> UNION {XLang(X, L, r, 1) : r \in X[A]}]) IN IF M = L THEN L ELSE XFix(X, M, n)
TwoReadings ==
  P.ok => LET X == TLCEval(XP(P.D))
              M == TLCEval(XFix(X, [A \in DOMAIN X |-> {}], N))
              L == TLCEval(DLang(P.D, N))
          IN \A A \in Defined(P.D) : M[ToString(<<"s", A>>)] = {[i \in DOMAIN w |-> ToString(<<"s", w[i]>>)] : w \in L[A]}
=============================================================================
