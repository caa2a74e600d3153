------------------------------ MODULE Pipeline ------------------------------
(* One run of lexer, parser and reducers.  What the stages will answer is    *)
(* scripted in a call c:                                                     *)
(*   c.in    the input                                                       *)
(*   c.lex   [nil, n, errs]: no lexemes at all, or n lexemes of which those  *)
(*           at the positions errs are errors                                *)
(*   c.parse the tree the parser will answer, 0 for none                     *)
(*   c.reds  per reducer [nil, out]: absent, or the tree it will answer      *)
(* A state is [pc, k, tree, err, log]; the log are the calls made so far.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Begin == [pc |-> "lex", k |-> 1, tree |-> 0, err |-> "", log |-> <<>>]
Stop(s, e) == [s EXCEPT !.pc = "end", !.tree = IF e = "" THEN @ ELSE 0, !.err = e]
Log(s, e) == [s EXCEPT !.log = Append(@, e)]

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
ErrSet(c) == {c.lex.errs[j] : j \in DOMAIN c.lex.errs}

DoLex(c, s) ==
  LET t == Log(s, [ev |-> "lex", arg |-> c.in, n |-> 0])
  IN IF c.lex.nil = 1 THEN Stop(t, "ErrCouldNotLex")
     ELSE IF ErrSet(c) # {} THEN Stop(t, "lexeme " \o ToString(SetMin(ErrSet(c))))
     ELSE [t EXCEPT !.pc = "parse"]
DoParse(c, s) ==
  LET t == Log(s, [ev |-> "parse", arg |-> c.in, n |-> c.lex.n])
  IN IF c.parse = 0 THEN Stop(t, "ErrCouldNotParse") ELSE [t EXCEPT !.pc = "reduce", !.tree = c.parse]
DoReduce(c, s) ==
  IF s.k > Len(c.reds) THEN Stop(s, "")
  ELSE LET r == c.reds[s.k]
           t == [Log(s, [ev |-> "reduce", arg |-> ToString(s.k), n |-> s.tree]) EXCEPT !.k = @ + 1]
       IN IF r.nil = 1 THEN [s EXCEPT !.k = @ + 1]
          ELSE IF r.out = 0 THEN Stop(t, "ErrCouldNotReduce")
          ELSE [t EXCEPT !.tree = r.out]
Step(c, s) == CASE s.pc = "lex" -> DoLex(c, s)
                [] s.pc = "parse" -> DoParse(c, s)
                [] s.pc = "reduce" -> DoReduce(c, s)
RECURSIVE RunFrom(_, _)
RunFrom(c, s) == IF s.pc = "end" THEN s ELSE RunFrom(c, Step(c, s))
Result(c) == LET s == RunFrom(c, Begin) IN [tree |-> s.tree, err |-> s.err, log |-> s.log]
=============================================================================
