------------------------------ MODULE Symbols ------------------------------
(***************************************************************************)
(* Symbol sets, productions and production lists as a store of values.     *)
(* State s:                                                                *)
(*   sets  Seq(Seq(text))      texts of each set in index order            *)
(*   po    production objects  [set, syms]                                 *)
(*   ph    production handles  -> object (casting within a set is the      *)
(*                                same object, taking an element is a new  *)
(*                                one)                                     *)
(*   lo,lh production lists and their handles                              *)
(* Apply(s, e) is the state after event e, Result(s, e) what it returns.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Empty == [sets |-> <<<<>>, <<>>>>, po |-> <<>>, ph |-> <<>>, lo |-> <<>>, lh |-> <<>>]

Idx(set, t) == IF \E k \in DOMAIN set : set[k] = t THEN (CHOOSE k \in DOMAIN set : set[k] = t) - 1 ELSE -1
RECURSIVE AddTexts(_, _)
AddTexts(set, ts) == IF ts = <<>> THEN set
                     ELSE AddTexts(IF Idx(set, ts[1]) >= 0 THEN set ELSE Append(set, ts[1]), Tail(ts))
Put(s, k, ts) == IF k = 0 THEN s ELSE [s EXCEPT !.sets[k] = AddTexts(@, ts)]      \* k = 0: a plain string symbol
RECURSIVE FlatAll(_)
FlatAll(x) == IF x = <<>> THEN <<>> ELSE x[1] \o FlatAll(Tail(x))

NewProd(s, set, ts) == [s EXCEPT !.po = Append(@, [set |-> set, syms |-> ts]), !.ph = Append(@, Len(s.po) + 1)]
NewList(s, set, ps) == [s EXCEPT !.lo = Append(@, [set |-> set, prods |-> ps]), !.lh = Append(@, Len(s.lo) + 1)]
Prod(s, h) == s.po[s.ph[h]]
List(s, h) == s.lo[s.lh[h]]
Texts(s, hs) == [k \in DOMAIN hs |-> Prod(s, hs[k]).syms]

Apply(s, e) ==
  CASE e.do = "str"  -> Put(s, e.set, <<e.text>>)
    [] e.do = "conv" -> Put(Put(s, e.from, <<e.text>>), e.set, <<e.text>>)
    [] e.do \in {"has", "byidx", "pget", "size", "sget", "slget", "loadg", "nil"} -> s
    [] e.do \in {"idx", "hassym"} -> Put(s, e.from, <<e.text>>)
    [] e.do = "prod" -> NewProd(Put(Put(s, e.from, e.texts), e.set, e.texts), e.set, e.texts)
    [] e.do = "padd" -> LET p == Prod(s, e.h)
                        IN [Put(Put(s, e.from, e.texts), p.set, e.texts)
                              EXCEPT !.po[s.ph[e.h]].syms = @ \o e.texts]
    [] e.do = "pcast" -> LET p == Prod(s, e.h)
                         IN IF p.set = e.set THEN [s EXCEPT !.ph = Append(@, s.ph[e.h])]
                            ELSE NewProd(Put(s, e.set, p.syms), e.set, p.syms)
    [] e.do = "list" -> NewList(Put(s, e.set, FlatAll(Texts(s, e.hs))), e.set, Texts(s, e.hs))
    [] e.do = "ladd" -> LET l == List(s, e.h)
                        IN [Put(s, l.set, FlatAll(Texts(s, e.hs))) EXCEPT !.lo[s.lh[e.h]].prods = @ \o Texts(s, e.hs)]
    [] e.do = "lget" -> LET l == List(s, e.h)
                        IN IF e.i < Len(l.prods) THEN NewProd(s, l.set, l.prods[e.i + 1]) ELSE s
    [] e.do = "lcast" -> LET l == List(s, e.h)
                         IN IF l.set = e.set THEN [s EXCEPT !.lh = Append(@, s.lh[e.h])]
                            ELSE NewList(Put(s, e.set, FlatAll(l.prods)), e.set, l.prods)
    [] e.do = "load" -> Put(s, e.set, e.texts)            \* LoadLexemes

None == "<nil>"
(* what the call returns; sequences of one element *)
Result(s, e) ==
  CASE e.do \in {"str", "conv"} -> <<Idx(Apply(s, e).sets[e.set], e.text)>>
    [] e.do = "has" -> <<IF Idx(s.sets[e.set], e.text) >= 0 THEN 1 ELSE 0>>
    [] e.do \in {"idx", "hassym"} -> <<Idx(Put(s, e.from, <<e.text>>).sets[e.set], e.text)>>
    [] e.do = "byidx" -> <<IF e.i < Len(s.sets[e.set]) THEN s.sets[e.set][e.i + 1] ELSE None>>
    [] e.do = "size" -> <<Len(s.sets[e.set])>>
    [] e.do = "pget" -> <<IF e.i < Len(Prod(s, e.h).syms) THEN Prod(s, e.h).syms[e.i + 1] ELSE None>>
    [] e.do = "sget" -> <<IF e.i < Len(Prod(s, e.h).syms) THEN Prod(s, e.h).syms[e.i + 1] ELSE None>>
    [] e.do = "slget" -> IF e.i < Len(List(s, e.h).prods) THEN List(s, e.h).prods[e.i + 1] ELSE <<None>>
    [] e.do = "nil" -> <<1, 1, 1, 1, 1, 1, 1, 1, 1>>        \* nothing becomes nothing, and nothing is empty
    [] e.do = "lget" -> <<IF e.i < Len(List(s, e.h).prods) THEN 1 ELSE 0>>
    [] OTHER -> <<>>

(* LoadGrammar into a new set: which texts are there, each once; the order is not promised *)
GrammarTexts(rs) == {rs[k][1] : k \in DOMAIN rs} \cup UNION {{rs[k][n] : n \in DOMAIN rs[k]} : k \in DOMAIN rs}
Answers(s, e, r) == IF e.do = "loadg"
                    THEN /\ {r[k] : k \in DOMAIN r} = GrammarTexts(e.rules)
                         /\ Len(r) = Cardinality(GrammarTexts(e.rules))
                    ELSE r = Result(s, e)

(* the projection recorded after every event *)
View(s) == [sets |-> s.sets,
            prods |-> [h \in DOMAIN s.ph |-> Prod(s, h).syms],
            lists |-> [h \in DOMAIN s.lh |-> List(s, h).prods]]

WellFormed(s) ==
  /\ \A k \in DOMAIN s.sets : \A a, b \in DOMAIN s.sets[k] : a # b => s.sets[k][a] # s.sets[k][b]
  /\ \A k \in DOMAIN s.po : \A n \in DOMAIN s.po[k].syms : Idx(s.sets[s.po[k].set], s.po[k].syms[n]) >= 0
=============================================================================
