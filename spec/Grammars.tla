------------------------------ MODULE Grammars ------------------------------
(***************************************************************************)
(* Context-free grammars as values, and what they mean.                    *)
(*                                                                         *)
(* A grammar g is [nts |-> Seq(STRING), ps |-> Seq(Seq(Seq(STRING)))]:     *)
(* g.ps[i] are the productions of g.nts[i] in writing order; g.nts[1] is   *)
(* the start symbol; every other symbol is a terminal.  Most operators     *)
(* take the production map P == PM(g).                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}

NTs(g) == Range(g.nts)
PM(g)  == TLCEval([A \in NTs(g) |-> g.ps[CHOOSE i \in DOMAIN g.nts : g.nts[i] = A]])
Start(g) == g.nts[1]
Rhs(P, A) == Range(P[A])
Symbols(P) == DOMAIN P \cup UNION {UNION {Range(r) : r \in Rhs(P, A)} : A \in DOMAIN P}
Terminals(P) == Symbols(P) \ DOMAIN P

-----------------------------------------------------------------------------
(* Nullability: X =>* <<>> *)
RECURSIVE NullFix(_, _)
NullFix(P, N) ==
  LET M == {A \in DOMAIN P : \E r \in Rhs(P, A) : Range(r) \subseteq N}
  IN IF M = N THEN N ELSE NullFix(P, M)
Nullable(P) == NullFix(P, {})

-----------------------------------------------------------------------------
(* Relations between non-terminals and their closures *)
RECURSIVE Closure(_)
Closure(R) ==
  LET D == R \cup {<<x[1], y[2]>> : <<x, y>> \in {z \in R \X R : z[1][2] = z[2][1]}}
  IN IF D = R THEN R ELSE Closure(D)

(* A -> alpha B beta with alpha nullable: B is a left corner of A *)
LeftCorner(P) ==
  LET N == TLCEval(Nullable(P))
  IN UNION {UNION {{<<A, r[k]>> : k \in {k \in DOMAIN r : \A m \in 1..(k-1) : r[m] \in N}}
            : r \in Rhs(P, A)} : A \in DOMAIN P}

LeftCornerNT(P) == {x \in LeftCorner(P) : x[2] \in DOMAIN P}

(* some non-terminal derives, through nullable symbols, a form that starts with itself *)
LeftRecursive(P) == LET C == TLCEval(Closure(LeftCornerNT(P))) IN \E A \in DOMAIN P : <<A, A>> \in C

(* A =>+ A *)
UnitStep(P) ==
  LET N == TLCEval(Nullable(P))
  IN UNION {UNION {{<<A, r[k]>> : k \in {k \in DOMAIN r :
                        r[k] \in DOMAIN P /\ \A m \in DOMAIN r : m # k => r[m] \in N}}
            : r \in Rhs(P, A)} : A \in DOMAIN P}
Cyclic(P) == LET C == TLCEval(Closure(UnitStep(P))) IN \E A \in DOMAIN P : <<A, A>> \in C

-----------------------------------------------------------------------------
(* First sets.  FirstOf(P)[A] = terminals t such that A =>* t beta, where   *)
(* symbols after t need not be productive ("string of symbols").            *)
Reach(C, A) == {A} \cup {x[2] : x \in {y \in C : y[1] = A}}
FirstOf(P) ==
  LET LC == TLCEval(LeftCorner(P))
      C  == TLCEval(Closure({x \in LC : x[2] \in DOMAIN P}))
  IN [A \in DOMAIN P |-> {x[2] : x \in {y \in LC : y[1] \in Reach(C, A)}} \ DOMAIN P]
(* an empty production is reachable from A by descending through leftmost   *)
(* symbols, stepping right only past nullable symbols                       *)
NilInFirst(P) ==
  LET C == TLCEval(Closure(LeftCornerNT(P)))
  IN {A \in DOMAIN P : \E B \in Reach(C, A) : <<>> \in Rhs(P, B)}

-----------------------------------------------------------------------------
(* Spans.  T[s+1][A] = set of ends e such that A =>* w[s+1..e].             *)
EndsSym(P, T, w, X, s) ==
  IF X \in DOMAIN P THEN T[s+1][X]
  ELSE IF s < Len(w) /\ w[s+1] = X THEN {s+1} ELSE {}

RECURSIVE EndsSeq(_, _, _, _, _, _)
EndsSeq(P, T, w, r, k, S) ==           \* ends of r[k..] started anywhere in S
  IF k > Len(r) \/ S = {} THEN S
  ELSE EndsSeq(P, T, w, r, k+1, TLCEval(UNION {EndsSym(P, T, w, r[k], s) : s \in S}))

RECURSIVE FixRow(_, _, _, _)
FixRow(P, T, w, s) ==
  LET row == TLCEval([A \in DOMAIN P |-> UNION {EndsSeq(P, T, w, r, 1, {s}) : r \in Rhs(P, A)}])
  IN IF row = T[s+1] THEN T ELSE FixRow(P, [T EXCEPT ![s+1] = row], w, s)

RECURSIVE FillRows(_, _, _, _)
FillRows(P, T, w, s) == IF s < 0 THEN T ELSE FillRows(P, TLCEval(FixRow(P, T, w, s)), w, s-1)

Ends(P, w) ==
  LET z == TLCEval([A \in DOMAIN P |-> {}])
  IN FillRows(P, TLCEval([i \in 1..(Len(w)+1) |-> z]), w, Len(w))

Derives(P, T, w, A) == Len(w) \in T[1][A]

-----------------------------------------------------------------------------
(* Trees: [k |-> kind, v |-> value, l |-> line, c |-> column, ch |-> Seq]   *)
Kinds(lxs) == TLCEval([i \in DOMAIN lxs |-> lxs[i].k])
ChKinds(t) == [i \in DOMAIN t.ch |-> t.ch[i].k]

RECURSIVE Leaves(_, _)
RECURSIVE LeavesFrom(_, _, _)
LeavesFrom(P, ch, i) == IF i > Len(ch) THEN <<>> ELSE Leaves(P, ch[i]) \o LeavesFrom(P, ch, i+1)
Leaves(P, t) == IF t.k \in DOMAIN P THEN LeavesFrom(P, t.ch, 1) ELSE <<t>>

RECURSIVE Locally(_, _)
Locally(P, t) ==                       \* every interior node is a production
  IF t.k \in DOMAIN P
  THEN /\ ChKinds(t) \in Rhs(P, t.k)
       /\ \A i \in DOMAIN t.ch : Locally(P, t.ch[i])
  ELSE t.ch = <<>>

(* a tree from its nodes in preorder, each with its number n of children    *)
RECURSIVE Build(_, _, _)
Build(f, i, stack) ==                  \* stack: the trees of f[i+1..], first on top (at the end)
  IF i = 0 THEN stack
  ELSE LET m == Len(stack)
           t == [k |-> f[i].k, v |-> f[i].v, l |-> f[i].l, c |-> f[i].c,
                 ch |-> TLCEval([j \in 1..f[i].n |-> stack[m + 1 - j]])]
       IN Build(f, i - 1, TLCEval(Append(SubSeq(stack, 1, m - f[i].n), t)))
Unflat(f) == Build(f, Len(f), <<>>)[1]

SameLx(t, x) == t.k = x.k /\ t.v = x.v /\ t.l = x.l /\ t.c = x.c

Derivation(P, S, t, lxs) ==
  /\ t.k = S
  /\ Locally(P, t)
  /\ LET L == TLCEval(Leaves(P, t))
     IN Len(L) = Len(lxs) /\ \A i \in DOMAIN L : SameLx(L[i], lxs[i])

(* kinds and shape only *)
RECURSIVE Shape(_)
Shape(t) == [k |-> t.k, ch |-> TLCEval([i \in DOMAIN t.ch |-> Shape(t.ch[i])])]

-----------------------------------------------------------------------------
(* The best derivation: the leftmost derivation that always takes the       *)
(* earliest production with which the rest of the input can still be        *)
(* derived.  Best(...) = <<tree, end>>.  rest is the sequence of symbols     *)
(* that must derive what follows this node.                                 *)
RECURSIVE BestNode(_, _, _, _, _, _)
RECURSIVE BestKids(_, _, _, _, _, _, _, _)
BestNode(P, T, w, A, s, rest) ==
  IF A \notin DOMAIN P THEN <<[k |-> A, ch |-> <<>>], s+1>>
  ELSE LET ok == TLCEval({i \in DOMAIN P[A] :
                   Len(w) \in EndsSeq(P, T, w, P[A][i] \o rest, 1, {s})})
           i  == CHOOSE i \in ok : \A j \in ok : i <= j
           kk == BestKids(P, T, w, P[A][i], 1, s, rest, <<>>)
       IN <<[k |-> A, ch |-> kk[1]], kk[2]>>
BestKids(P, T, w, r, m, s, rest, acc) ==
  IF m > Len(r) THEN <<acc, s>>
  ELSE LET b == TLCEval(BestNode(P, T, w, r[m], s, SubSeq(r, m+1, Len(r)) \o rest))
       IN BestKids(P, T, w, r, m+1, b[2], rest, Append(acc, b[1]))
Best(P, T, w, S) == BestNode(P, T, w, S, 0, <<>>)[1]

(* All derivation trees of A over w[s+1..e], for acyclic grammars, with the *)
(* preorder list of production numbers; small scope only.                   *)
RECURSIVE TreesOf(_, _, _, _, _, _)
RECURSIVE ForestOf(_, _, _, _, _, _, _)
TreesOf(P, T, w, A, s, e) ==
  IF A \notin DOMAIN P
  THEN IF e = s+1 /\ s < Len(w) /\ w[s+1] = A THEN {<<[k |-> A, ch |-> <<>>], <<>>>>} ELSE {}
  ELSE IF e \notin T[s+1][A] THEN {}
  ELSE UNION {{<<[k |-> A, ch |-> f[1]], <<i>> \o f[2]>> : f \in ForestOf(P, T, w, P[A][i], 1, s, e)}
              : i \in DOMAIN P[A]}
ForestOf(P, T, w, r, m, s, e) ==
  IF m > Len(r) THEN (IF s = e THEN {<<<<>>, <<>>>>} ELSE {})
  ELSE UNION {{<<<<a[1]>> \o b[1], a[2] \o b[2]>> : <<a, b>> \in
                  TreesOf(P, T, w, r[m], s, q) \X ForestOf(P, T, w, r, m+1, q, e)}
              : q \in {q \in EndsSym(P, T, w, r[m], s) : q <= e /\ e \in EndsSeq(P, T, w, r, m+1, {q})}}

LexLess(x, y) ==                       \* strict lexicographic order
  \E k \in 1..(Len(x) + 1) :
     /\ \A i \in 1..(k-1) : i <= Len(x) /\ i <= Len(y) /\ x[i] = y[i]
     /\ \/ k = Len(x) + 1 /\ Len(y) > Len(x)
        \/ k <= Len(x) /\ k <= Len(y) /\ x[k] < y[k]

-----------------------------------------------------------------------------
(* Ordered choice.  M[s+1][A] = <<"undef">> | <<"fail">> | <<"ok", p, end>> *)
OC(P, M, w, X, s) ==
  IF X \in DOMAIN P THEN M[s+1][X]
  ELSE IF s < Len(w) /\ w[s+1] = X THEN <<"ok", 0, s+1>> ELSE <<"fail">>
RECURSIVE OCSeq(_, _, _, _, _, _)
OCSeq(P, M, w, r, k, s) ==             \* <<"ok", 0, end>>, fail or undef
  IF k > Len(r) THEN <<"ok", 0, s>>
  ELSE LET x == TLCEval(OC(P, M, w, r[k], s))
       IN IF x[1] = "ok" THEN OCSeq(P, M, w, r, k+1, x[3]) ELSE x
RECURSIVE OCAlt(_, _, _, _, _, _)
OCAlt(P, M, w, A, i, s) ==             \* first alternative from the i-th on that matches
  IF i > Len(P[A]) THEN <<"fail">>
  ELSE LET x == TLCEval(OCSeq(P, M, w, P[A][i], 1, s))
       IN IF x[1] = "ok" THEN <<"ok", i, x[3]>>
          ELSE IF x[1] = "undef" THEN x
          ELSE OCAlt(P, M, w, A, i+1, s)
RECURSIVE OCRow(_, _, _, _)
OCRow(P, M, w, s) ==
  LET row == TLCEval([A \in DOMAIN P |-> OCAlt(P, M, w, A, 1, s)])
  IN IF row = M[s+1] THEN M ELSE OCRow(P, [M EXCEPT ![s+1] = row], w, s)
RECURSIVE OCFill(_, _, _, _)
OCFill(P, M, w, s) == IF s < 0 THEN M ELSE OCFill(P, TLCEval(OCRow(P, M, w, s)), w, s-1)
OCTable(P, w) ==
  LET z == TLCEval([A \in DOMAIN P |-> <<"undef">>])
  IN OCFill(P, TLCEval([i \in 1..(Len(w)+1) |-> z]), w, Len(w))

RECURSIVE OCTree(_, _, _, _, _)
RECURSIVE OCKids(_, _, _, _, _, _, _)
OCTree(P, M, w, X, s) ==
  IF X \notin DOMAIN P THEN [k |-> X, ch |-> <<>>]
  ELSE [k |-> X, ch |-> OCKids(P, M, w, P[X][M[s+1][X][2]], 1, s, <<>>)]
OCKids(P, M, w, r, k, s, acc) ==
  IF k > Len(r) THEN acc
  ELSE OCKids(P, M, w, r, k+1, OC(P, M, w, r[k], s)[3], Append(acc, OCTree(P, M, w, r[k], s)))

(* production of the start symbol: the first that also consumes everything  *)
OCStart(P, M, w, S) ==
  LET ok == {i \in DOMAIN P[S] : OCSeq(P, M, w, P[S][i], 1, 0) = <<"ok", 0, Len(w)>>}
  IN IF ok = {} THEN 0 ELSE CHOOSE i \in ok : \A j \in ok : i <= j
OCParse(P, M, w, S) ==                 \* shape of the tree, given OCStart # 0
  [k |-> S, ch |-> OCKids(P, M, w, P[S][OCStart(P, M, w, S)], 1, 0, <<>>)]

-----------------------------------------------------------------------------
(* All terminal strings of length <= n derivable from each non-terminal.    *)
Cat(X, Y, n) == {x \o y : <<x, y>> \in {z \in X \X Y : Len(z[1]) + Len(z[2]) <= n}}
RECURSIVE LangSeq(_, _, _, _, _)
LangSeq(P, L, r, k, n) ==
  IF k > Len(r) THEN {<<>>}
  ELSE LET hd == IF r[k] \in DOMAIN P THEN L[r[k]] ELSE {<<r[k]>>}
       IN IF hd = {} THEN {} ELSE TLCEval(Cat(hd, LangSeq(P, L, r, k+1, n), n))
RECURSIVE LangFix(_, _, _)
LangFix(P, L, n) ==
  LET M == TLCEval([A \in DOMAIN P |-> UNION {LangSeq(P, L, r, 1, n) : r \in Rhs(P, A)}])
  IN IF M = L THEN L ELSE LangFix(P, M, n)
LangUpTo(P, n) == LangFix(P, TLCEval([A \in DOMAIN P |-> {}]), n)
=============================================================================
