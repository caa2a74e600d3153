------------------------------ MODULE MathExpr ------------------------------
(* Arithmetic expressions on bytes, and their value as a program for a stack *)
(* machine: <<[o, v]>> with o = "num" (v its text), "neg", "+" "-" "*" "/".  *)
EXTENDS Naturals, Integers, Sequences, TLC

Digit(b, p) == p <= Len(b) /\ b[p] \in 48..57
At(b, p, x) == p <= Len(b) /\ b[p] = x
RECURSIVE Digits(_, _)          \* the position after the digits from p on
Digits(b, p) == IF Digit(b, p) THEN Digits(b, p + 1) ELSE p
(* digits? "."? digits, as long as possible; p if there is no number at p *)
NumberEnd(b, p) ==
  LET q == Digits(b, p) IN IF At(b, q, 46) /\ Digit(b, q + 1) THEN Digits(b, q + 1) ELSE q
IsSpace(x) == x \in {9, 10, 12, 13, 32}
OpName(x) == CASE x = 42 -> "*" [] x = 43 -> "+" [] x = 45 -> "-" [] x = 47 -> "/" [] x = 40 -> "(" [] x = 41 -> ")" [] OTHER -> "bad"
RECURSIVE Toks(_, _, _)
Toks(b, p, acc) ==
  IF p > Len(b) THEN acc
  ELSE IF IsSpace(b[p]) THEN Toks(b, p + 1, acc)
  ELSE LET e == NumberEnd(b, p)
       IN IF e > p THEN Toks(b, e, Append(acc, [t |-> "num", v |-> SubSeq(b, p, e - 1)]))
          ELSE Toks(b, p + 1, Append(acc, [t |-> OpName(b[p]), v |-> <<>>]))

T(ts, p) == IF p <= Len(ts) THEN ts[p].t ELSE "end"
I(o) == <<[o |-> o, v |-> <<>>]>>
Ok(p, c) == [ok |-> TRUE, p |-> p, c |-> c]
Fail(p) == [ok |-> FALSE, p |-> p, c |-> <<>>]
(* Expr ::= Term (("+"|"-") Term)*,  Term ::= Fact (("*"|"/") Fact)*,        *)
(* Fact ::= num | ("+"|"-") num | "(" Expr ")"                               *)
RECURSIVE PExpr(_, _), PTerm(_, _), PFact(_, _), MoreTerms(_, _), MoreFacts(_, _)
PFact(ts, p) ==
  CASE T(ts, p) = "num" -> Ok(p + 1, <<[o |-> "num", v |-> ts[p].v]>>)
    [] T(ts, p) \in {"+", "-"} ->
         IF T(ts, p + 1) # "num" THEN Fail(p + 1)
         ELSE Ok(p + 2, <<[o |-> "num", v |-> ts[p + 1].v]>> \o (IF T(ts, p) = "-" THEN I("neg") ELSE <<>>))
    [] T(ts, p) = "(" ->
         LET r == PExpr(ts, p + 1)
         IN IF ~r.ok THEN r ELSE IF T(ts, r.p) # ")" THEN Fail(r.p) ELSE Ok(r.p + 1, r.c)
    [] OTHER -> Fail(p)
MoreFacts(ts, r) ==
  IF ~r.ok \/ T(ts, r.p) \notin {"*", "/"} THEN r
  ELSE LET f == PFact(ts, r.p + 1) IN IF ~f.ok THEN f ELSE MoreFacts(ts, Ok(f.p, r.c \o f.c \o I(T(ts, r.p))))
PTerm(ts, p) == MoreFacts(ts, PFact(ts, p))
MoreTerms(ts, r) ==
  IF ~r.ok \/ T(ts, r.p) \notin {"+", "-"} THEN r
  ELSE LET f == PTerm(ts, r.p + 1) IN IF ~f.ok THEN f ELSE MoreTerms(ts, Ok(f.p, r.c \o f.c \o I(T(ts, r.p))))
PExpr(ts, p) == MoreTerms(ts, PTerm(ts, p))

Program(ts) == LET r == PExpr(ts, 1) IN IF r.ok /\ r.p = Len(ts) + 1 THEN r ELSE Fail(IF r.ok THEN r.p ELSE r.p)
Meaning(b) == Program(Toks(b, 1, <<>>))
=============================================================================
