------------------------------ MODULE MC_Pump -------------------------------
(* The closed forms of Pump are what the specification says, for every size  *)
(* up to MAXN.                                                               *)
EXTENDS Pump, Json, IOUtils
G == INSTANCE Grammars
T == INSTANCE Trees
VARIABLES n, st
MaxN == atoi(IOEnv.MAXN)

Nodes(t) == [i \in DOMAIN t.k |-> [k |-> t.k[i], v |-> <<>>, l |-> t.l[i], c |-> 0, n |-> t.n[i]]]
Tree(t) == G!Unflat(Nodes(t))

ParseOk(f) ==
  LET P == G!PM(PGrammar(f, n))
      w == PInput(f, n, 0)
      x == PInput(f, n, 1)
      lxs == [i \in DOMAIN w |-> [k |-> w[i], v |-> <<>>, l |-> i, c |-> 0]]
      t == Tree(PTree(f, n))
  IN /\ G!Derivation(P, "S", t, lxs)
     /\ G!Shape(t) = G!Best(P, G!Ends(P, w), w, "S")
     /\ ~G!Derives(P, G!Ends(P, x), x, "S")
     /\ f \notin {"L", "W"} =>
          /\ G!Shape(t) = G!OCParse(P, G!OCTable(P, w), w, "S")
          /\ G!OCStart(P, G!OCTable(P, x), x, "S") = 0

Op(o, i, is, ks) == [o |-> o, i |-> i, is |-> is, ks |-> ks]
Red(o) == [t |-> "op", op |-> o]
RemB == Op("RemoveAll", 0, <<>>, <<"b">>)
Same(t, f, do) == t = Tree(TreeOut(f, do, n))
TreesOk ==
  LET w == Tree(Wide(n))
      p == Tree(Pairs(n))
      d == Tree(Deep(n))
  IN /\ Same(T!Edit(RemB, w), "wide", "removeall")
     /\ Same(T!Edit(Op("RemoveChildren", 0, [j \in 1..((n + 1) \div 3) |-> 3 * j - 2], <<>>), w), "wide", "removechildren")
     /\ Same(T!Reduce(<<[k |-> "r", r |-> Red(RemB)]>>, w), "wide", "reduce")
     /\ Same(T!Edit(Op("PromoteGrandChildren", 0, <<>>, <<>>), p), "pairs", "grand")
     /\ Same(T!Reduce(<<[k |-> "a", r |-> Red(Op("PromoteSingleChild", 0, <<>>, <<>>))]>>, p), "pairs", "reduce")
     /\ Same(T!Reduce(<<[k |-> "a", r |-> Red(Op("PromoteSingleChild", 0, <<>>, <<>>))]>>, d), "deep", "reduce")
     /\ \A f \in {"wide", "pairs", "deep"} :
          LET t == Tree(TreeIn(f, n)) IN T!IsTree(T!ReadLines(T!Text0, T!LinesOf(t))) /\ Same(T!TreeOf(T!ReadLines(T!Text0, T!LinesOf(t))), f, "print")

GramOk(end) ==
  LET g == GGrammar(n, end)
      P == G!PM(g)
      F == TLCEval(G!FirstOf(P))
      N == TLCEval(G!NilInFirst(P))
      o == GramOut(n, end)
      A(i) == Name("A", i)
  IN /\ (o.lr = 1) = G!LeftRecursive(P)
     /\ \A i \in 1..n :
          /\ o.prods[i] = Len(g.ps[i])
          /\ o.heads[i] = (IF g.ps[i][1] # <<>> /\ g.ps[i][1][1] \in DOMAIN P
                            THEN CHOOSE j \in 1..n : g.ps[i][1][1] = A(j) ELSE 0)
          /\ (o.first[i] = 1) = ("x" \in F[A(i)])
          /\ (o.other[i] = 1) = ("y" \in F[A(i)] \/ A(i) \in N)

Good ==
  /\ \A f \in {"L", "R", "N", "E", "A", "V", "W", "D", "C"} : ParseOk(f)
  /\ TreesOk
  /\ \A end \in GramEnds : (n > 1 \/ end \in {"loop", "end"}) => GramOk(end)

Init == n \in 1..MaxN /\ st = "todo"
Next == st = "todo" /\ st' = (IF Good THEN "good" ELSE "bad") /\ UNCHANGED n
Spec == Init /\ [][Next]_<<n, st>>
Inv == st # "bad"
=============================================================================
