------------------------------- MODULE Scalc --------------------------------
(* The stack calculator on words: a machine that reads them from left to     *)
(* right.  A word is [t, v], t = "num", "uop", "bop", "sop", "?", "(", ")"   *)
(* or "junk".  A frame is one stack: vals are programs <<[o, v, n]>> for the *)
(* values on it, free is how many of the topmost ones an operator may take   *)
(* (a closed parenthesis is not an operand of unary, binary and ? operators).*)
EXTENDS Naturals, Integers, Sequences, TLC

Frame == [vals |-> <<>>, free |-> 0]
Fresh == [fs |-> <<Frame>>, res |-> "run"]
Ins(o, v, n) == <<[o |-> o, v |-> v, n |-> n]>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))

Top(s) == s.fs[Len(s.fs)]
SetTop(s, f) == [s EXCEPT !.fs[Len(s.fs)] = f]
Stop(s, r) == [s EXCEPT !.res = r]
(* replace the top k values by one *)
Take(s, k, i) ==
  LET f == Top(s)
      n == Len(f.vals)
  IN IF f.free < k THEN Stop(s, "lacks")
     ELSE SetTop(s, [vals |-> Append(SubSeq(f.vals, 1, n - k), Flat(SubSeq(f.vals, n - k + 1, n)) \o i), free |-> f.free - k + 1])
Step(s, w) ==
  CASE w.t = "num" -> Take(s, 0, Ins("num", w.v, 0))
    [] w.t = "uop" -> Take(s, 1, Ins("uop", w.v, 0))
    [] w.t = "bop" -> Take(s, 2, Ins("bop", w.v, 0))
    [] w.t = "?"   -> Take(s, 3, Ins("?", w.v, 0))
    [] w.t = "sop" -> LET f == Top(s)
                      IN SetTop(s, [vals |-> <<Flat(f.vals) \o Ins("sop", w.v, Len(f.vals))>>, free |-> 1])
    [] w.t = "("   -> [s EXCEPT !.fs = Append(@, Frame)]
    [] w.t = ")"   -> IF Len(s.fs) = 1 THEN Stop(s, "bad")
                      ELSE LET f == Top(s)
                               u == [s EXCEPT !.fs = SubSeq(@, 1, Len(@) - 1)]
                           IN SetTop(u, [vals |-> Top(u).vals \o f.vals, free |-> 0])
    [] OTHER -> Stop(s, "bad")
RECURSIVE RunFrom(_, _, _)
RunFrom(s, ws, p) == IF p > Len(ws) \/ s.res # "run" THEN s ELSE RunFrom(Step(s, ws[p]), ws, p + 1)

RECURSIVE Nested(_, _, _)
Nested(ws, p, d) == IF d < 0 THEN FALSE ELSE IF p > Len(ws) THEN d = 0
                    ELSE Nested(ws, p + 1, d + (IF ws[p].t = "(" THEN 1 ELSE IF ws[p].t = ")" THEN -1 ELSE 0))
Has(ws, T) == \E k \in DOMAIN ws : ws[k].t \in T
(* the reading is the only one: no operator is one of two that ? could choose between *)
Choice(ws) == Has(ws, {"?"}) /\ \E k \in 1..(Len(ws) - 1) : ws[k].t = ws[k + 1].t /\ ws[k].t \in {"uop", "bop", "sop"}
(* and every operator on a whole stack ends it: after it, 2 2 3 sum * is read as 2 (2 3 sum) *, *)
(* so how far such an operator reaches depends on the words that follow                         *)
SopMid(ws) == \E k \in 1..(Len(ws) - 1) : ws[k].t = "sop" /\ ws[k + 1].t # ")"
(* Where the code has a known defect (known_findings.jsonl): 1, words after a parenthesis; 2, a *)
(* choice that is not all there is on the stack before a final stack operator; 0, elsewhere      *)
AfterParen(ws) == \E k \in 1..(Len(ws) - 1) : ws[k].t = ")" /\ ws[k + 1].t # ")"
LoneChoice(ws, k) ==
  LET s == RunFrom(Fresh, SubSeq(ws, 1, k - 1), 1)
  IN Len(s.fs) = 1 /\ Len(Top(s).vals) = 3 /\ (k = Len(ws) \/ (k + 1 = Len(ws) /\ ws[k + 1].t = "sop"))
Affected(ws) == IF AfterParen(ws) THEN 1
                ELSE IF \E k \in DOMAIN ws : ws[k].t = "?" /\ ~LoneChoice(ws, k) THEN 2 ELSE 0
(* [ok: 1 a stack, 0 nothing, 2 not specified; c: the program of the whole stack] *)
Meaning(ws) ==
  LET s == RunFrom(Fresh, ws, 1)
      no == [ok |-> 0, c |-> <<>>]
      any == [ok |-> 2, c |-> <<>>]
  IN IF Has(ws, {"junk"}) \/ ~Nested(ws, 1, 0) THEN no
     ELSE IF s.res = "lacks" THEN (IF Has(ws, {"sop", "?", "(", ")"}) THEN any ELSE no)
     ELSE IF Choice(ws) \/ SopMid(ws) THEN any
     ELSE [ok |-> 1, c |-> Flat(s.fs[1].vals)]
=============================================================================
