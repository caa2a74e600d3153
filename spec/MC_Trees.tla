------------------------------ MODULE MC_Trees ------------------------------
(* Edits of trees: every tree of at most MAXN nodes, every sequence of DEPTH *)
(* operations at any node with any index in -4..4.                           *)
EXTENDS Trees, Json, IOUtils
MaxN == atoi(IOEnv.MAXN)
Depth == atoi(IOEnv.DEPTH)
Mode == IOEnv.MODE          \* "edit" or "reduce"
Leaf(n) == [k |-> IF n % 2 = 0 THEN "A" ELSE "B", v |-> <<96 + n>>, l |-> 1, c |-> n, ch |-> <<>>]
O(name, i, is, ks) == [o |-> name, i |-> i, is |-> is, ks |-> ks]
Idxs == -4..4
Ops == {O(nm, i, <<>>, <<>>) : nm \in {"RemoveChild", "ReplaceWithChild", "PromoteChild", "PromoteChildValue", "PromoteChildrenOf"}, i \in Idxs}
       \cup {O("RemoveChildren", 0, is, <<>>) : is \in {<<>>, <<0, -1>>, <<1, 1>>, <<-5, 0>>, <<2, 0>>}}
       \cup {O("RemoveAll", 0, <<>>, ks) : ks \in {<<"A">>, <<"B", "A">>, <<>>}}
       \cup {O(nm, 0, <<>>, <<>>) : nm \in {"PromoteSingleChild", "PromoteGrandChildren"}}
FewOps == {O(nm, i, <<>>, <<>>) : nm \in {"RemoveChild", "ReplaceWithChild", "PromoteChild", "PromoteChildValue", "PromoteChildrenOf"}, i \in {0, -1}}
       \cup {O("RemoveAll", 0, <<>>, <<"A">>)} \cup {O(nm, 0, <<>>, <<>>) : nm \in {"PromoteSingleChild", "PromoteGrandChildren"}}
Op(o) == [t |-> "op", op |-> o]
Nil == [t |-> "nil"]
Reductions == {Op(o) : o \in FewOps} \cup {Nil}
              \cup {[t |-> "if", c |-> [t |-> "childis", i |-> i, k |-> "A"], y |-> Op(O("RemoveChild", 0, <<>>, <<>>)), n |-> Op(O("PromoteChild", -1, <<>>, <<>>))] : i \in {0, -1}}

VARIABLES t0, t, hist, st
vars == <<t0, t, hist, st>>
(* grow the tree in preorder: the next node becomes the last child of a node on the right edge *)
RECURSIVE Edge(_)
Edge(x) == IF x.ch = <<>> THEN 0 ELSE 1 + Edge(x.ch[Len(x.ch)])
RECURSIVE Grow(_, _, _)
Grow(x, d, n) == IF d = 0 THEN [x EXCEPT !.ch = Append(@, Leaf(n))]
                 ELSE [x EXCEPT !.ch[Len(x.ch)] = Grow(@, d - 1, n)]
Init == t0 = Leaf(1) /\ t = Leaf(1) /\ hist = <<>> /\ st = "grow"
GrowStep == /\ st = "grow" /\ Size(t0) < MaxN
            /\ \E d \in 0..Edge(t0) : t0' = Grow(t0, d, Size(t0) + 1)
            /\ t' = t0' /\ UNCHANGED <<hist, st>>
Ready == st = "grow" /\ st' = Mode /\ UNCHANGED <<t0, t, hist>>

RECURSIVE Paths(_)
Paths(x) == {<<>>} \cup UNION {{<<j - 1>> \o p : p \in Paths(x.ch[j])} : j \in DOMAIN x.ch}
EditStep == /\ st = "edit" /\ Len(hist) < Depth
            /\ \E p \in Paths(t), o \in (IF Len(hist) = 0 \/ Depth = 1 THEN Ops ELSE FewOps) :
                 /\ t' = UpdateAt(LAMBDA x : Edit(o, x), t, p)
                 /\ hist' = Append(hist, [path |-> p, op |-> o])
            /\ UNCHANGED <<t0, st>>
ReduceStep == /\ st = "reduce" /\ hist = <<>>
              /\ \E a \in Reductions, b \in Reductions :
                   /\ hist' = <<[k |-> "A", r |-> a], [k |-> "B", r |-> b]>>
                   /\ t' = Reduce(<<[k |-> "A", r |-> a], [k |-> "B", r |-> b]>>, t0)
              /\ UNCHANGED <<t0, st>>
Emit == /\ (st = "edit" /\ Len(hist) = Depth) \/ (st = "reduce" /\ hist # <<>>)
        /\ st' = "halt" /\ UNCHANGED <<t0, t, hist>>
        /\ PrintT("CASE " \o ToJson([t |-> t0, hist |-> hist, exp |-> t]))
Next == GrowStep \/ Ready \/ EditStep \/ ReduceStep \/ Emit
Spec == Init /\ [][Next]_vars

RECURSIVE Values(_), ValuesAll(_)
Values(x) == <<x.v>> \o ValuesAll(x.ch)
ValuesAll(xs) == IF xs = <<>> THEN <<>> ELSE Values(xs[1]) \o ValuesAll(Tail(xs))
(* no edit invents or duplicates a node *)
NothingInvented ==
  LET vs == Values(t)
  IN /\ Size(t) <= Size(t0)
     /\ \A i, j \in DOMAIN vs : i # j => vs[i] # vs[j]
     /\ {vs[i] : i \in DOMAIN vs} \subseteq {Values(t0)[i] : i \in DOMAIN Values(t0)}
=============================================================================
