------------------------------- MODULE Trees --------------------------------
(* Parse trees as values [k, v, l, c, ch] (kind, value bytes, line, column,  *)
(* children), the edit operations of a node, and reductions built of them.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

RECURSIVE FlatCh(_)
FlatCh(ns) == IF ns = <<>> THEN <<>> ELSE ns[1].ch \o FlatCh(Tail(ns))
RECURSIVE Size(_), SizeAll(_)
Size(t) == 1 + SizeAll(t.ch)
SizeAll(ts) == IF ts = <<>> THEN 0 ELSE Size(ts[1]) + SizeAll(Tail(ts))

(* indexes are 0-based, negative ones count from the end *)
Idx(t, i) == IF i < 0 THEN Len(t.ch) + i ELSE i
InRange(t, i) == Idx(t, i) >= 0 /\ Idx(t, i) < Len(t.ch)
At(t, i) == t.ch[Idx(t, i) + 1]
Before(t, i) == SubSeq(t.ch, 1, Idx(t, i))
After(t, i) == SubSeq(t.ch, Idx(t, i) + 2, Len(t.ch))
KindIn(t, ks) == \E j \in DOMAIN ks : ks[j] = t.k

ChildIs(t, i, kind) == InRange(t, i) /\ At(t, i).k = kind
ChildAt(t, i, kinds) == InRange(t, i) /\ KindIn(At(t, i), kinds)

RECURSIVE Keep(_, _, _)
Keep(ch, drop, k) == IF k > Len(ch) THEN <<>> ELSE (IF k \in drop THEN <<>> ELSE <<ch[k]>>) \o Keep(ch, drop, k + 1)

(* o = [o: name, i: index, is: indexes, ks: kinds] *)
Edit(o, t) ==
  CASE o.o = "RemoveChild" ->
         IF InRange(t, o.i) THEN [t EXCEPT !.ch = Before(t, o.i) \o After(t, o.i)] ELSE t
    [] o.o = "RemoveChildren" ->        \* all indexes are about the children before the call
         [t EXCEPT !.ch = Keep(t.ch, {Idx(t, o.is[j]) + 1 : j \in {j2 \in DOMAIN o.is : InRange(t, o.is[j2])}}, 1)]
    [] o.o = "RemoveAll" -> [t EXCEPT !.ch = SelectSeq(t.ch, LAMBDA x : ~KindIn(x, o.ks))]
    [] o.o = "ReplaceWithChild" -> IF InRange(t, o.i) THEN At(t, o.i) ELSE t
    [] o.o = "PromoteChild" ->
         IF InRange(t, o.i) THEN [At(t, o.i) EXCEPT !.ch = Before(t, o.i) \o At(t, o.i).ch \o After(t, o.i)] ELSE t
    [] o.o = "PromoteSingleChild" -> IF Len(t.ch) = 1 THEN t.ch[1] ELSE t
    [] o.o = "PromoteChildValue" ->
         IF InRange(t, o.i) THEN [t EXCEPT !.v = At(t, o.i).v, !.l = At(t, o.i).l, !.c = At(t, o.i).c,
                                           !.ch = Before(t, o.i) \o After(t, o.i)] ELSE t
    [] o.o = "PromoteChildrenOf" ->
         IF InRange(t, o.i) THEN [t EXCEPT !.ch = Before(t, o.i) \o At(t, o.i).ch \o After(t, o.i)] ELSE t
    [] o.o = "PromoteGrandChildren" -> [t EXCEPT !.ch = FlatCh(t.ch)]
(* what the operation reports: 1 done, 0 not, -1 nothing *)
Reports(o, t) ==
  CASE o.o \in {"RemoveChild", "ReplaceWithChild", "PromoteChild", "PromoteChildrenOf"} -> IF InRange(t, o.i) THEN 1 ELSE 0
    [] o.o = "PromoteSingleChild" -> IF Len(t.ch) = 1 THEN 1 ELSE 0
    [] OTHER -> -1

(* the node a path leads to: each entry modulo the number of children, stop at a leaf *)
Pick(t, x) == (x % Len(t.ch)) + 1
RECURSIVE NodeAt(_, _), UpdateAt(_, _, _)
NodeAt(t, path) == IF path = <<>> \/ t.ch = <<>> THEN t ELSE NodeAt(t.ch[Pick(t, path[1])], Tail(path))
UpdateAt(f(_), t, path) ==
  IF path = <<>> \/ t.ch = <<>> THEN f(t)
  ELSE [t EXCEPT !.ch[Pick(t, path[1])] = UpdateAt(f, @, Tail(path))]

(* ------------------------------ reductions ------------------------------ *)
(* [t: "op", op] | [t: "chain", a: list] | [t: "if", c, y, n] | [t: "nil"]   *)
Holds(c, t) == CASE c.t = "childis" -> ChildIs(t, c.i, c.k)
                 [] c.t = "nchildren" -> Len(t.ch) = c.i
                 [] c.t = "nil" -> FALSE
(* functions of a user: they change the value, the kind, or add a child *)
Fn(r, t) ==
  CASE r.f = "mark" -> [t EXCEPT !.v = Append(@, 33)]
    [] r.f = "rename" -> [t EXCEPT !.k = r.k]
    [] r.f = "grow" -> [t EXCEPT !.ch = Append(@, [k |-> r.k, v |-> <<>>, l |-> -1, c |-> 0, ch |-> <<>>])]
RECURSIVE Apply(_, _), ApplyAll(_, _)
Apply(r, t) ==
  CASE r.t = "op" -> Edit(r.op, t)
    [] r.t = "chain" -> ApplyAll(r.a, t)
    [] r.t = "if" -> IF Holds(r.c, t) THEN Apply(r.y, t) ELSE Apply(r.n, t)
    [] r.t = "nil" -> t
    [] r.t = "fn" -> Fn(r, t)
ApplyAll(a, t) == IF a = <<>> THEN t ELSE ApplyAll(Tail(a), Apply(a[1], t))

(* a reducer is a list of [k, r]; the last entry for a kind counts *)
HasRule(R, k) == \E j \in DOMAIN R : R[j].k = k
RuleFor(R, k) == R[CHOOSE j \in DOMAIN R : R[j].k = k /\ \A m \in DOMAIN R : R[m].k = k => m <= j].r
Kinds(R) == {R[j].k : j \in DOMAIN R}
RECURSIVE SetToList(_)
SetToList(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToList(S \ {x})
Merge(R1, R2) ==
  LET ks == SetToList(Kinds(R1) \cup Kinds(R2))
  IN [j \in DOMAIN ks |-> [k |-> ks[j], r |-> [t |-> "chain",
        a |-> (IF HasRule(R1, ks[j]) THEN <<RuleFor(R1, ks[j])>> ELSE <<>>)
              \o (IF HasRule(R2, ks[j]) THEN <<RuleFor(R2, ks[j])>> ELSE <<>>)]]]
RECURSIVE MergeAll(_)
MergeAll(Rs) == IF Len(Rs) = 1 THEN Rs[1] ELSE MergeAll(<<Merge(Rs[1], Rs[2])>> \o SubSeq(Rs, 3, Len(Rs)))

RECURSIVE Reduce(_, _)
Reduce(R, t) ==
  LET cp == [t EXCEPT !.ch = [j \in DOMAIN t.ch |-> Reduce(R, t.ch[j])]]
  IN IF HasRule(R, t.k) THEN Apply(RuleFor(R, t.k), cp) ELSE cp

(* ------------------------------ tree text ------------------------------- *)
(* A line: [close, k, v, open, bad]: an optional closing brace, then nothing *)
(* or a kind with value and an optional opening brace; bad: neither.         *)
NoPos(t) == [t EXCEPT !.l = -1, !.c = 0]
RECURSIVE Unplaced(_)
Unplaced(t) == [k |-> t.k, v |-> t.v, l |-> -1, c |-> 0, ch |-> [j \in DOMAIN t.ch |-> Unplaced(t.ch[j])]]

Text0 == [err |-> FALSE, stk |-> <<[k |-> "", v |-> <<>>, l |-> -1, c |-> 0, ch |-> <<>>]>>]
CloseTop(s) ==
  LET n == Len(s.stk)
  IN IF n = 1 THEN [s EXCEPT !.err = TRUE]
     ELSE [s EXCEPT !.stk = [SubSeq(@, 1, n - 1) EXCEPT ![n - 1].ch = Append(@, s.stk[n])]]
AddNode(s, ln) ==
  LET n == Len(s.stk)
      x == [k |-> ln.k, v |-> ln.v, l |-> -1, c |-> 0, ch |-> <<>>]
  IN IF ln.k = "" THEN s
     ELSE IF ln.open = 1 THEN [s EXCEPT !.stk = Append(@, x)]
     ELSE [s EXCEPT !.stk = [@ EXCEPT ![n].ch = Append(@, x)]]
ReadLine(s, ln) ==
  IF s.err THEN s
  ELSE IF ln.bad = 1 THEN [s EXCEPT !.err = TRUE]
  ELSE LET a == IF ln.close = 1 THEN CloseTop(s) ELSE s
       IN IF a.err THEN a ELSE AddNode(a, ln)
RECURSIVE ReadLines(_, _)
ReadLines(s, ls) == IF ls = <<>> THEN s ELSE ReadLines(ReadLine(s, ls[1]), Tail(ls))
IsTree(s) == ~s.err /\ Len(s.stk) = 1 /\ Len(s.stk[1].ch) = 1
TreeOf(s) == s.stk[1].ch[1]

(* printing: the lines of a tree *)
RECURSIVE LinesOf(_), LinesOfAll(_)
Ln(close, k, v, open) == [close |-> close, k |-> k, v |-> v, open |-> open, bad |-> 0]
LinesOf(t) == IF t.ch = <<>> THEN <<Ln(0, t.k, t.v, 0)>>
            ELSE <<Ln(0, t.k, t.v, 1)>> \o LinesOfAll(t.ch) \o <<Ln(1, "", <<>>, 0)>>
LinesOfAll(ts) == IF ts = <<>> THEN <<>> ELSE LinesOf(ts[1]) \o LinesOfAll(Tail(ts))
=============================================================================
