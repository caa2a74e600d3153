----------------------------- MODULE MC_LexPump -----------------------------
(* The closed forms of LexPump at small sizes, on the definitions and units  *)
(* the check uses (LF): nothing but the specification is involved.  Prints   *)
(* which of them have a closed form.                                         *)
EXTENDS LexPump, Json, IOUtils
Cs == ndJsonDeserialize(IOEnv.LF)
MaxN == atoi(IOEnv.MAXN)
VARIABLES i, st
RECURSIVE Copies(_, _)
Copies(u, n) == IF n = 0 THEN <<>> ELSE u \o Copies(u, n - 1)
InScope(c) ==
  LET L == Lexer(c.def)
  IN CASE c.fam = "lines" -> LET per == TLCEval(Periods(L, c.unit)) IN per.ok /\ per.b # <<>>
       [] c.fam = "run" -> Stretches(L, c)
       [] c.fam = "deep" -> TRUE
Good(c) ==
  LET L == Lexer(c.def)
  IN CASE c.fam = "lines" -> LET per == TLCEval(Periods(L, c.unit))
                             IN \A n \in 1..MaxN : LexAll(L, Copies(c.unit, n)) = Repeated(per, n)
       [] c.fam = "run" -> LET n == 3 * N0 + 1 IN Folded(c, LexAll(L, RunText(c, n)), n) = Stretch(L, c, Base(L, c), n)
       [] c.fam = "deep" -> \A n \in 1..MaxN : LexAll(Lexer(DeepDef), DeepIn(c.f, n)) = DeepOut(c.f, n)
Init == i \in DOMAIN Cs /\ st = "todo"
Next == /\ st = "todo" /\ UNCHANGED i
        /\ IF ~InScope(Cs[i]) THEN st' = "outside"
           ELSE PrintT("CASE " \o ToJson([i |-> i])) /\ st' = (IF Good(Cs[i]) THEN "good" ELSE "bad")
Spec == Init /\ [][Next]_<<i, st>>
Inv == st # "bad"
=============================================================================
