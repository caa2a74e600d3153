------------------------------ MODULE LexPump -------------------------------
(* Lexing inputs of any size: what a small instance gives determines what    *)
(* all larger ones give, and the conditions for that.                        *)
EXTENDS Lex

(* the bytes an expression can consume *)
RECURSIVE Eats(_)
Eats(r) == CASE r.t = "c" -> {r.s[k] : k \in DOMAIN r.s}
             [] r.t = "n" -> (0..255) \ {r.s[k] : k \in DOMAIN r.s}
             [] r.t = "z" -> {}
             [] r.t \in {"cat", "alt"} -> UNION {Eats(r.a[k]) : k \in DOMAIN r.a}
             [] OTHER -> Eats(r.r)

(* ------------------- a: the same lines again and again ------------------- *)
(* Every sub-lexer has a rule for exactly one newline and no other rule      *)
(* touches newlines: no match and no error run crosses the end of a line, so *)
(* what a line gives depends on the line and the stack alone (assertions see *)
(* one byte further, the newline).                                           *)
IsNl(r) == r.re.t = "c" /\ r.re.s = <<10>>
LineWise(L) == \A i \in DOMAIN L.subs :
                 /\ \E k \in DOMAIN L.subs[i] : IsNl(L.subs[i][k])
                 /\ \A k \in DOMAIN L.subs[i] : IsNl(L.subs[i][k]) \/ 10 \notin Eats(L.subs[i][k].re)
RECURSIVE RunTo(_, _, _, _)
RunTo(L, s, b, p) == IF s.p >= p THEN s ELSE RunTo(L, TLCEval(LexStep(L, s, b)), b, p)
(* [ok, a: lexemes of the first copy, b: lexemes of each later copy] *)
Periods(L, unit) ==
  LET n == Len(unit)
      b == TLCEval(unit \o unit \o unit)
      s1 == TLCEval(RunTo(L, Fresh, b, n + 1))
      s2 == TLCEval(RunTo(L, s1, b, 2 * n + 1))
  IN [ok |-> LineWise(L) /\ unit[n] = 10 /\ s1.stk = s2.stk /\ s1.p = n + 1 /\ s2.p = 2 * n + 1 /\ s1.err = 0 /\ s2.err = 0,
      a |-> s1.out, b |-> SubSeq(s2.out, Len(s1.out) + 1, Len(s2.out)), q |-> Newlines(unit, n + 1)]
Repeated(per, n) ==
  LET la == Len(per.a)
      lb == Len(per.b)
      at(i) == per.b[((i - la - 1) % lb) + 1]
  IN [i \in 1..(la + (n - 1) * lb) |->
        IF i <= la THEN per.a[i]
        ELSE [at(i) EXCEPT !.l = @ + per.q * ((i - la - 1) \div lb)]]

(* --------------------------- b: one long run ----------------------------- *)
(* pre, n times the byte c (which occurs nowhere else), post.  Expressions   *)
(* tell apart run lengths up to N0 and remainders of divisors of N0 at most; *)
(* if 2*N0 consecutive lengths stretch, all do.                              *)
N0 == 12
RunText(x, n) == TLCEval(x.pre \o [i \in 1..n |-> x.c] \o x.post)
(* -1 stands for the run *)
RECURSIVE Fold(_, _, _, _)
Fold(v, c, n, p) ==
  IF p > Len(v) THEN <<>>
  ELSE IF v[p] = c /\ p + n - 1 <= Len(v) /\ (\A k \in p..(p + n - 1) : v[k] = c) /\ (p + n > Len(v) \/ v[p + n] # c)
  THEN <<-1>> \o Fold(v, c, n, p + n)
  ELSE <<v[p]>> \o Fold(v, c, n, p + 1)
Folded(x, out, n) == [i \in DOMAIN out |-> [out[i] EXCEPT !.v = Fold(@, x.c, n, 1)]]
Base(L, x) == TLCEval(Folded(x, LexAll(L, RunText(x, N0)), N0))
Stretch(L, x, base, n) ==
  LET p == Len(x.pre) + 1
      ln == LineOf(L, x.pre, p)
      co == ColOf(x.pre, p)
  IN [i \in DOMAIN base |->
        IF x.c = 10 THEN (IF base[i].l >= ln + N0 THEN [base[i] EXCEPT !.l = @ + n - N0] ELSE base[i])
        ELSE IF base[i].l = ln /\ base[i].c >= co + N0 THEN [base[i] EXCEPT !.c = @ + n - N0] ELSE base[i]]
Stretches(L, x) ==
  LET base == Base(L, x)
  IN \A n \in (N0 + 1)..(2 * N0) : TLCEval(Folded(x, LexAll(L, RunText(x, n)), n)) = TLCEval(Stretch(L, x, base, n))

(* ---------------------------- c: deep stacks ----------------------------- *)
(* first: x, o = "(" to second, z; second: y = "x", o = "(" to itself,       *)
(* c = ")" up.  Lexers as the definitions of the driver have them.           *)
Ch(s) == [t |-> "c", s |-> s]
Rl(k, s, push, pop) == [t |-> "rule", kind |-> k, discard |-> 0, push |-> push, pop |-> pop, grps |-> <<>>, re |-> Ch(<<s>>)]
DeepDef == [kind |-> "stack", dup |-> 0,
            subs |-> <<[items |-> <<Rl("x", 120, 0, 0), Rl("o", 40, 2, 0), Rl("z", 122, 0, 0)>>],
                       [items |-> <<Rl("y", 120, 0, 0), Rl("o", 40, 2, 0), Rl("c", 41, 0, 1)>>]>>]
DeepIn(f, n) == CASE f = "close" -> [i \in 1..(2 * n + 2) |-> IF i <= n THEN 40 ELSE IF i = n + 1 \/ i = 2 * n + 2 THEN 120 ELSE 41]
                  [] f = "open" -> [i \in 1..(2 * n + 1) |-> IF i <= n THEN 40 ELSE IF i = n + 1 THEN 120 ELSE IF i = 2 * n + 1 THEN 120 ELSE 41]
                  [] f = "fall" -> [i \in 1..(n + 2) |-> IF i <= n THEN 40 ELSE IF i = n + 1 THEN 122 ELSE 120]
                  [] f = "error" -> [i \in 1..(n + 2) |-> IF i <= n THEN 40 ELSE IF i = n + 1 THEN 33 ELSE 120]
DeepOut(f, n) ==
  LET b == DeepIn(f, n)
      kind(i) == IF b[i] = 40 THEN "o" ELSE IF b[i] = 41 THEN "c" ELSE IF b[i] = 122 THEN "z" ELSE IF b[i] = 33 THEN "Error"
                 ELSE IF i < Len(b) \/ f = "open" THEN "y" ELSE "x"
  IN [i \in DOMAIN b |-> [k |-> kind(i), v |-> <<b[i]>>, e |-> IF b[i] = 33 THEN 1 ELSE 0, l |-> 1, c |-> i]]
=============================================================================
