---------------------------- MODULE ReducerText -----------------------------
(* The textual language of reducers on tokens [t, n, v]: t is the kind of    *)
(* token, n the number of a "num", v the text of a "rule" or "str".          *)
EXTENDS Trees

NoArgOps == {"PromoteSingleChild", "PromoteGrandChildren"}
NumOps == {"PromoteChildValue", "RemoveChild", "ReplaceWithChild", "PromoteChildrenOf", "PromoteChild"}
T(ts, p) == IF p <= Len(ts) THEN ts[p].t ELSE "end"
(* results: [ok, p, r]; on failure p is the position of the offending token *)
Fail(p) == [ok |-> FALSE, p |-> p, r |-> [t |-> "nil"]]
Ok(p, r) == [ok |-> TRUE, p |-> p, r |-> r]
O(name, i, is, ks) == [t |-> "op", op |-> [o |-> name, i |-> i, is |-> is, ks |-> ks]]

RECURSIVE Expect(_, _, _)      \* first position at which the tokens differ from the kinds; 0: none
Expect(ts, p, ks) == IF ks = <<>> THEN 0 ELSE IF T(ts, p) = ks[1] THEN Expect(ts, p + 1, Tail(ks)) ELSE p

RECURSIVE List(_, _, _)        \* item (comma item)* rp from p: [ok, p, items]
List(ts, p, kind) ==
  IF T(ts, p) # kind THEN [ok |-> FALSE, p |-> p, xs |-> <<>>]
  ELSE IF T(ts, p + 1) = "rp" THEN [ok |-> TRUE, p |-> p + 2, xs |-> <<ts[p]>>]
  ELSE IF T(ts, p + 1) = "comma"
       THEN LET r == List(ts, p + 2, kind) IN [r EXCEPT !.xs = <<ts[p]>> \o @]
  ELSE [ok |-> FALSE, p |-> p + 1, xs |-> <<>>]

RECURSIVE PChain(_, _), PReduction(_, _), PMore(_, _, _), PRules(_, _, _)
PReduction(ts, p) ==
  LET t == T(ts, p)
  IN IF t = "Nil" THEN Ok(p + 1, [t |-> "nil"])
     ELSE IF t \in NoArgOps
          THEN LET e == Expect(ts, p + 1, <<"lp", "rp">>) IN IF e = 0 THEN Ok(p + 3, O(t, 0, <<>>, <<>>)) ELSE Fail(e)
     ELSE IF t \in NumOps
          THEN LET e == Expect(ts, p + 1, <<"lp", "num", "rp">>)
               IN IF e = 0 THEN Ok(p + 4, O(t, ts[p + 2].n, <<>>, <<>>)) ELSE Fail(e)
     ELSE IF t \in {"RemoveChildren", "RemoveAll"}
          THEN IF T(ts, p + 1) # "lp" THEN Fail(p + 1)
               ELSE LET l == List(ts, p + 2, IF t = "RemoveAll" THEN "str" ELSE "num")
                    IN IF ~l.ok THEN Fail(l.p)
                       ELSE IF t = "RemoveAll" THEN Ok(l.p, O(t, 0, <<>>, [j \in DOMAIN l.xs |-> l.xs[j].v]))
                       ELSE Ok(l.p, O(t, 0, [j \in DOMAIN l.xs |-> l.xs[j].n], <<>>))
     ELSE IF t = "If"
          THEN LET e == Expect(ts, p + 1, <<"lp", "ChildIs", "lp", "num", "comma", "str", "rp", "comma">>)
               IN IF e # 0 THEN Fail(e)
                  ELSE LET y == PChain(ts, p + 9)
                       IN IF ~y.ok THEN Fail(y.p)
                          ELSE IF T(ts, y.p) # "comma" THEN Fail(y.p)
                          ELSE LET n == PChain(ts, y.p + 1)
                               IN IF ~n.ok THEN Fail(n.p)
                                  ELSE IF T(ts, n.p) # "rp" THEN Fail(n.p)
                                  ELSE Ok(n.p + 1, [t |-> "if", c |-> [t |-> "childis", i |-> ts[p + 4].n, k |-> ts[p + 6].v], y |-> y.r, n |-> n.r])
     ELSE Fail(p)
PChain(ts, p) ==
  LET r == PReduction(ts, p) IN IF ~r.ok THEN r ELSE PMore(ts, r.p, <<r.r>>)
PMore(ts, p, acc) ==
  IF T(ts, p) # "period" THEN Ok(p, [t |-> "chain", a |-> acc])
  ELSE LET r == PReduction(ts, p + 1) IN IF ~r.ok THEN r ELSE PMore(ts, r.p, Append(acc, r.r))
(* the whole text: [ok, p, R] *)
PRules(ts, p, R) ==
  IF p > Len(ts) THEN [ok |-> TRUE, p |-> p, R |-> R]
  ELSE IF T(ts, p) # "rule" THEN [ok |-> FALSE, p |-> p, R |-> <<>>]
  ELSE LET c == PChain(ts, p + 1)
       IN IF ~c.ok THEN [ok |-> FALSE, p |-> c.p, R |-> <<>>]
          ELSE PRules(ts, c.p, Append(R, [k |-> ts[p].v, r |-> c.r]))
ParseReducer(ts) == PRules(ts, 1, <<>>)
=============================================================================
