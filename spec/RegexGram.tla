----------------------------- MODULE RegexGram ------------------------------
(* The extended grammar notation of regexgram on tokens [t, v]: t is the     *)
(* kind ("nl", "rarr", "sym", "rep", "opt", "or", "lp", "rp" or anything     *)
(* else), v the text of a "sym".                                             *)
EXTENDS Grammars

T(ts, p) == IF p <= Len(ts) THEN ts[p].t ELSE "end"
Sym(v)  == [o |-> "sym", v |-> v, a |-> <<>>]
Mk(o, a) == [o |-> o, v |-> "", a |-> a]
Ok(p, e) == [ok |-> TRUE, p |-> p, e |-> e]
Fail(p)  == [ok |-> FALSE, p |-> p, e |-> Mk("seq", <<>>)]

(* Unit ::= (sym | "(" Seq ")") ("?" | "*")?                                 *)
(* Item ::= Unit ("|" Unit)*                                                 *)
(* Seq  ::= Item*                                                            *)
RECURSIVE PUnit(_, _), PItem(_, _, _), PSeq(_, _, _)
Suffix(ts, r) == IF T(ts, r.p) = "opt" THEN Ok(r.p + 1, Mk("opt", <<r.e>>))
                 ELSE IF T(ts, r.p) = "rep" THEN Ok(r.p + 1, Mk("rep", <<r.e>>))
                 ELSE r
PUnit(ts, p) ==
  IF T(ts, p) = "sym" THEN Suffix(ts, Ok(p + 1, Sym(ts[p].v)))
  ELSE IF T(ts, p) = "lp"
       THEN LET r == PSeq(ts, p + 1, <<>>)
            IN IF ~r.ok THEN r ELSE IF T(ts, r.p) # "rp" THEN Fail(r.p) ELSE Suffix(ts, Ok(r.p + 1, r.e))
  ELSE Fail(p)
PItem(ts, p, acc) ==
  LET r == PUnit(ts, p)
  IN IF ~r.ok THEN r
     ELSE LET us == Append(acc, r.e)
          IN IF T(ts, r.p) = "or" THEN PItem(ts, r.p + 1, us)
             ELSE Ok(r.p, IF Len(us) = 1 THEN us[1] ELSE Mk("or", us))
PSeq(ts, p, acc) ==
  IF T(ts, p) \notin {"sym", "lp"} THEN Ok(p, Mk("seq", acc))
  ELSE LET r == PItem(ts, p, <<>>) IN IF ~r.ok THEN r ELSE PSeq(ts, r.p, Append(acc, r.e))

(* the whole text: the lines D, each [nt, e] in writing order *)
RECURSIVE PLines(_, _, _)
PLines(ts, p, D) ==
  IF p > Len(ts) \/ (p = Len(ts) /\ T(ts, p) = "nl")
  THEN [ok |-> D # <<>>, p |-> p + 1, D |-> D]
  ELSE IF T(ts, p) # "nl" THEN [ok |-> FALSE, p |-> p, D |-> <<>>]
  ELSE LET named == T(ts, p + 1) = "sym"
           q == IF named THEN p + 2 ELSE p + 1
       IN IF ~named /\ (T(ts, p + 1) # "rarr" \/ D = <<>>) THEN [ok |-> FALSE, p |-> p + 1, D |-> <<>>]
          ELSE IF T(ts, q) # "rarr" THEN [ok |-> FALSE, p |-> q, D |-> <<>>]
          ELSE LET r == PSeq(ts, q + 1, <<>>)
               IN IF ~r.ok THEN [ok |-> FALSE, p |-> r.p, D |-> <<>>]
                  ELSE PLines(ts, r.p, Append(D, [nt |-> IF named THEN ts[p + 1].v ELSE D[Len(D)].nt, e |-> r.e]))
(* newlines before the first line are free *)
Norm(ts) == IF T(ts, 1) = "nl" THEN ts ELSE <<[t |-> "nl", v |-> ""]>> \o ts
ParseText(ts) == PLines(Norm(ts), 1, <<>>)

-----------------------------------------------------------------------------
RECURSIVE SymsOf(_)
SymsOf(e) == IF e.o = "sym" THEN {e.v} ELSE UNION {SymsOf(e.a[i]) : i \in DOMAIN e.a}
Defined(D) == {D[i].nt : i \in DOMAIN D}
Mentioned(D) == Defined(D) \cup UNION {SymsOf(D[i].e) : i \in DOMAIN D}
RECURSIVE FirstOnly(_, _)          \* without later repetitions
FirstOnly(s, acc) == IF s = <<>> THEN acc ELSE FirstOnly(Tail(s), IF s[1] \in Range(acc) THEN acc ELSE Append(acc, s[1]))
NtOrder(D) == FirstOnly([i \in DOMAIN D |-> D[i].nt], <<>>)

(* plain alternatives of an expression in order; a repetition counts as one symbol "*" *)
RECURSIVE Alts(_), AltSeq(_, _, _), AltOr(_, _, _), CatAll(_, _, _, _)
CatAll(X, Y, i, acc) ==            \* every x before every y, x varying slowest
  IF i > Len(X) THEN acc ELSE CatAll(X, Y, i + 1, acc \o [j \in DOMAIN Y |-> X[i] \o Y[j]])
AltSeq(a, i, acc) == IF i > Len(a) THEN acc ELSE AltSeq(a, i + 1, CatAll(acc, Alts(a[i]), 1, <<>>))
AltOr(a, i, acc) == IF i > Len(a) THEN acc ELSE AltOr(a, i + 1, acc \o Alts(a[i]))
Alts(e) == CASE e.o = "sym" -> <<<<e.v>>>>
             [] e.o = "rep" -> <<<<"*">>>>
             [] e.o = "opt" -> Append(Alts(e.a[1]), <<>>)
             [] e.o = "or"  -> AltOr(e.a, 1, <<>>)
             [] e.o = "seq" -> AltSeq(e.a, 1, <<<<>>>>)
RECURSIVE AltsOf(_, _, _, _)
AltsOf(D, A, i, acc) == IF i > Len(D) THEN FirstOnly(acc, <<>>)
                        ELSE AltsOf(D, A, i + 1, IF D[i].nt = A THEN acc \o Alts(D[i].e) ELSE acc)

(* strings of length <= n of an expression, L giving those of the defined non-terminals *)
RECURSIVE ELang(_, _, _), ELangSeq(_, _, _, _), Star(_, _, _)
Star(X, S, n) == LET S2 == TLCEval(S \cup Cat(X, S, n)) IN IF S2 = S THEN S ELSE Star(X, S2, n)
ELang(e, L, n) ==
  CASE e.o = "sym" -> IF e.v \in DOMAIN L THEN L[e.v] ELSE IF n >= 1 THEN {<<e.v>>} ELSE {}
    [] e.o = "opt" -> ELang(e.a[1], L, n) \cup {<<>>}
    [] e.o = "rep" -> Star(TLCEval(ELang(e.a[1], L, n)), {<<>>}, n)
    [] e.o = "or"  -> UNION {ELang(e.a[i], L, n) : i \in DOMAIN e.a}
    [] e.o = "seq" -> ELangSeq(e.a, L, 1, n)
ELangSeq(a, L, i, n) == IF i > Len(a) THEN {<<>>}
                        ELSE LET X == TLCEval(ELang(a[i], L, n)) IN IF X = {} THEN {} ELSE TLCEval(Cat(X, ELangSeq(a, L, i + 1, n), n))
RECURSIVE DLangFix(_, _, _)
DLangFix(D, L, n) ==
  LET M == TLCEval([A \in DOMAIN L |-> UNION {ELang(D[i].e, L, n) : i \in {i \in DOMAIN D : D[i].nt = A}}])
  IN IF M = L THEN L ELSE DLangFix(D, M, n)
DLang(D, n) == DLangFix(D, TLCEval([A \in Defined(D) |-> {}]), n)

(* does the plain grammar g mean what the definition D says, up to strings of length n? *)
Hide(D, r) == [i \in DOMAIN r |-> IF r[i] \in Mentioned(D) THEN r[i] ELSE "*"]
SameOrder(D, g) ==
  LET P == PM(g)
  IN /\ Cardinality(NTs(g)) = Len(g.nts)
     /\ SelectSeq(g.nts, LAMBDA x : x \in Defined(D)) = NtOrder(D)
     /\ g.nts[1] = D[1].nt
     /\ \A x \in Range(g.nts) : x \in Defined(D) \/ x \notin Mentioned(D)
     /\ \A A \in Defined(D) : FirstOnly([i \in DOMAIN P[A] |-> Hide(D, P[A][i])], <<>>) = AltsOf(D, A, 1, <<>>)
(* A repetition is made of new symbols; which ones and how is not specified, *)
(* but one that lists the alternatives of what is repeated has them in order. *)
(* RAlts: as Alts, a repetition being the record of its expression.          *)
RECURSIVE RAlts(_), RAltSeq(_, _, _), RAltOr(_, _, _)
RAltSeq(a, i, acc) == IF i > Len(a) THEN acc ELSE RAltSeq(a, i + 1, CatAll(acc, RAlts(a[i]), 1, <<>>))
RAltOr(a, i, acc) == IF i > Len(a) THEN acc ELSE RAltOr(a, i + 1, acc \o RAlts(a[i]))
RAlts(e) == CASE e.o \in {"sym", "rep"} -> <<<<e>>>>
              [] e.o = "opt" -> Append(RAlts(e.a[1]), <<>>)
              [] e.o = "or"  -> RAltOr(e.a, 1, <<>>)
              [] e.o = "seq" -> RAltSeq(e.a, 1, <<<<>>>>)
RECURSIVE RAltsOf(_, _, _, _)
RAltsOf(D, A, i, acc) == IF i > Len(D) THEN acc
                         ELSE RAltsOf(D, A, i + 1, IF D[i].nt = A THEN acc \o RAlts(D[i].e) ELSE acc)
(* the pairs <<new symbol, repeated expression>> seen when rows stand for alternatives X *)
Pairs(D, rows, X) ==
  IF Len(rows) # Len(X) THEN {}
  ELSE UNION {IF Len(rows[i]) # Len(X[i]) THEN {}
              ELSE {<<rows[i][j], X[i][j].a[1]>> : j \in {j \in DOMAIN rows[i] : X[i][j].o = "rep" /\ rows[i][j] \notin Mentioned(D)}} :
              i \in DOMAIN rows}
Strip(h, r) == IF r # <<>> /\ r[Len(r)] = h THEN SubSeq(r, 1, Len(r) - 1) ELSE IF r # <<>> /\ r[1] = h THEN Tail(r) ELSE r
NoNil(s) == SelectSeq(s, LAMBDA r : r # <<>>)
RepRows(P, h) == NoNil([i \in DOMAIN P[h] |-> Strip(h, P[h][i])])
RECURSIVE AllPairs(_, _, _, _)
AllPairs(D, P, new, old) ==
  LET fresh == TLCEval({p \in new : p \notin old /\ p[1] \in DOMAIN P})
  IN IF fresh = {} THEN old
     ELSE AllPairs(D, P, TLCEval(UNION {Pairs(D, RepRows(P, p[1]), NoNil(RAlts(p[2]))) : p \in fresh}), old \cup fresh)
HideX(r) == [j \in DOMAIN r |-> IF r[j].o = "rep" THEN "*" ELSE r[j].v]
RepOrder(D, g) ==
  LET P == PM(g)
      all == TLCEval(AllPairs(D, P, TLCEval(UNION {Pairs(D, P[A], RAltsOf(D, A, 1, <<>>)) : A \in Defined(D)}), {}))
  IN \A p \in all :
       LET rows == RepRows(P, p[1])
           X == NoNil(RAlts(p[2]))
           a == FirstOnly([i \in DOMAIN rows |-> Hide(D, rows[i])], <<>>)
           b == FirstOnly([i \in DOMAIN X |-> HideX(X[i])], <<>>)
       IN Range(a) = Range(b) => a = b
SameLang(D, g, n) ==
  LET L == TLCEval(DLang(D, n))
      M == TLCEval(LangUpTo(PM(g), n))
  IN \A A \in Defined(D) : L[A] = M[A]
Means(D, g, n) == Defined(D) \subseteq NTs(g) /\ SameOrder(D, g) /\ RepOrder(D, g) /\ SameLang(D, g, n)

-----------------------------------------------------------------------------
(* the tree without the nodes that stand for repetitions *)
RECURSIVE Flat(_, _), FlatKids(_, _, _, _)
Flat(D, t) == [t EXCEPT !.ch = FlatKids(D, t.ch, 1, <<>>)]
FlatKids(D, ch, i, acc) ==
  IF i > Len(ch) THEN acc
  ELSE IF ch[i].k \in Mentioned(D) THEN FlatKids(D, ch, i + 1, Append(acc, Flat(D, ch[i])))
  ELSE FlatKids(D, ch, i + 1, acc \o FlatKids(D, ch[i].ch, 1, <<>>))
=============================================================================
