-------------------------------- MODULE Lex --------------------------------
(* The two lexers. A simple lexer is a stack lexer with one sub-lexer.       *)
(* A definition is a list of sub-lexers, each a list of items in written     *)
(* order: rules and names of sub-lexers whose rules are inherited.           *)
EXTENDS Regex, Integers

(* ------------------------------ definitions ------------------------------ *)
Rules(sub) == SelectSeq(sub.items, LAMBDA it : it.t = "rule")
InhEdges(d) == {<<i, d.subs[i].items[k].sub>> : <<i, k>> \in
                  {<<i2, k2>> \in (DOMAIN d.subs) \X (1..60) :
                     k2 \in DOMAIN d.subs[i2].items /\ d.subs[i2].items[k2].t = "inh"}}
RECURSIVE Closure(_)
Closure(E) ==
  LET F == E \cup {<<x[1], y[2]>> : <<x, y>> \in {<<x2, y2>> \in E \X E : x2[2] = y2[1]}}
  IN IF F = E THEN E ELSE Closure(F)
Cyclic(d) == \E x \in Closure(InhEdges(d)) : x[1] = x[2]

RuleOk(d, r) ==
  /\ r.re.t # "bad"
  /\ r.push \in 0..Len(d.subs)                       \* 0: none; a name that is not defined: -1
  /\ \A k \in DOMAIN r.grps : r.grps[k].g <= NGroups(r.re)     \* a literal: g = -1
(* can the definition be honoured? *)
WellFormed(d) ==
  /\ d.subs # <<>> /\ d.dup = 0
  /\ \A i \in DOMAIN d.subs : \A k \in DOMAIN Rules(d.subs[i]) : RuleOk(d, Rules(d.subs[i])[k])
  /\ ~Cyclic(d)
  /\ d.kind = "simple" => LET rs == Rules(d.subs[1])
                          IN \A j, k \in DOMAIN rs : j # k => rs[j].kind # rs[k].kind

(* the rules of a sub-lexer: written order, inherited ones in place, the first of a kind masks *)
RECURSIVE AddAll(_, _)
AddAll(acc, rs) ==
  IF rs = <<>> THEN acc
  ELSE AddAll(IF \E k \in DOMAIN acc : acc[k].kind = rs[1].kind THEN acc ELSE Append(acc, rs[1]), Tail(rs))
RECURSIVE Effective(_, _), EffItems(_, _, _)
Effective(d, i) == EffItems(d, d.subs[i].items, <<>>)
EffItems(d, its, acc) ==
  IF its = <<>> THEN acc
  ELSE EffItems(d, Tail(its), AddAll(acc, IF its[1].t = "inh" THEN Effective(d, its[1].sub) ELSE <<its[1]>>))

NoIns == [kind |-> "", val |-> <<>>]
(* the lexer a definition makes *)
Lexer(d) == [kind |-> d.kind, subs |-> [i \in DOMAIN d.subs |-> Effective(d, i)],
             mode |-> "len", start |-> NoIns, end |-> NoIns, err |-> "Error",
             line0 |-> IF d.kind = "simple" THEN 0 ELSE 1]
NoLexer == [kind |-> "none"]

(* ------------------------------- lexing step ----------------------------- *)
(* s = [p: next byte, stk: sub-lexers, top last, err: start of the error run *)
(* or 0, out: lexemes, spans: consumed text in order]                        *)
Fresh == [p |-> 1, stk |-> <<1>>, err |-> 0, out |-> <<>>, spans |-> <<>>]

(* [r, e, c] of the chosen rule at p, or <<>> *)
RECURSIVE Choose2(_, _, _, _, _, _)
Choose2(rs, k, mode, b, p, best) ==
  IF k > Len(rs) THEN best
  ELSE LET m == TLCEval(MatchAt(rs[k].re, b, p))
           cand == m # <<>> /\ m[1].e > p
           better == cand /\ (best = <<>> \/ (mode = "len" /\ m[1].e > best[1].e))
       IN Choose2(rs, k + 1, mode, b, p, TLCEval(IF better THEN <<[r |-> rs[k], e |-> m[1].e, c |-> m[1].c]>> ELSE best))
Chosen(L, s, b) == TLCEval(Choose2(L.subs[s.stk[Len(s.stk)]], 1, L.mode, b, s.p, <<>>))

Newlines(b, p) == Cardinality({i \in 1..(p - 1) : b[i] = 10})
LineOf(L, b, p) == L.line0 + Newlines(b, p)
RECURSIVE LineStart(_, _)          \* of the line that position p is on
LineStart(b, p) == IF p = 1 THEN 1 ELSE IF b[p - 1] = 10 THEN p ELSE LineStart(b, TLCEval(p - 1))
ColOf(b, p) == p - LineStart(b, p) + 1

RECURSIVE Build(_, _, _, _, _)
Build(gs, c, b, p, e) ==
  IF gs = <<>> THEN <<>>
  ELSE (IF gs[1].g = -1 THEN gs[1].lit
        ELSE IF gs[1].g = 0 THEN SubSeq(b, p, e - 1)
        ELSE IF c[gs[1].g] = <<>> THEN <<>>
        ELSE SubSeq(b, c[gs[1].g][1], c[gs[1].g][2] - 1)) \o Build(Tail(gs), c, b, p, e)
ValueOf(m, b, p) == IF m.r.grps = <<>> THEN SubSeq(b, p, m.e - 1) ELSE Build(m.r.grps, m.c, b, p, m.e)

ErrLexeme(L, s, b) == [k |-> L.err, v |-> SubSeq(b, s.err, s.p - 1), e |-> 1,
                       l |-> LineOf(L, b, s.err), c |-> ColOf(b, s.err)]
Flush(L, s, b) == IF s.err = 0 THEN s
                  ELSE [s EXCEPT !.out = Append(@, ErrLexeme(L, s, b)), !.err = 0,
                                 !.spans = Append(@, <<s.err, s.p, "error">>)]
Min(a, b) == IF a < b THEN a ELSE b

AtEnd(s, b) == s.p > Len(b)
(* one step at a position before the end *)
StepMatch(L, s, b, m) ==
  LET f == Flush(L, s, b)
      lx == [k |-> m.r.kind, v |-> ValueOf(m, b, s.p), e |-> 0, l |-> LineOf(L, b, s.p), c |-> ColOf(b, s.p)]
      drop == Min(m.r.pop, Len(s.stk) - 1)
  IN [f EXCEPT !.p = m.e,
               !.out = IF m.r.discard = 1 THEN @ ELSE Append(@, lx),
               !.spans = Append(@, <<s.p, m.e, IF m.r.discard = 1 THEN "discard" ELSE "lexeme">>),
               !.stk = IF m.r.push > 0 THEN Append(@, m.r.push) ELSE SubSeq(@, 1, Len(@) - drop)]
StepFallBack(s) == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
StepError(s) == [s EXCEPT !.p = @ + 1, !.err = IF @ = 0 THEN s.p ELSE @]
LexStep(L, s, b) ==
  LET m == Chosen(L, s, b)
  IN IF m # <<>> THEN StepMatch(L, s, b, m[1])
     ELSE IF Len(s.stk) > 1 THEN StepFallBack(s)
     ELSE StepError(s)

Inserted(i) == IF i.kind = "" THEN <<>> ELSE <<[k |-> i.kind, v |-> i.val, e |-> 0, l |-> -1, c |-> 0]>>
Finish(L, s, b) == Inserted(L.start) \o Flush(L, s, b).out \o Inserted(L.end)

RECURSIVE RunLex(_, _, _)
RunLex(L, s, b) == IF AtEnd(s, b) THEN Finish(L, s, b) ELSE RunLex(L, TLCEval(LexStep(L, s, b)), b)
LexAll(L, b) == LET bb == TLCEval(b) IN RunLex(L, Fresh, bb)

(* ---------------------------- operations on a lexer ---------------------- *)
CanAdd(L, r) == \A k \in DOMAIN L.subs[1] : L.subs[1][k].kind # r.kind
AddRule(L, r) == [L EXCEPT !.subs = <<Append(@[1], r)>>]
=============================================================================
