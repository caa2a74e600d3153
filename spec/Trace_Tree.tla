----------------------------- MODULE Trace_Tree -----------------------------
(* Validates histories of operations on two real trees (registers 1 and 2):  *)
(* after every operation both are observed completely.                       *)
EXTENDS Trees, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES tr, l, reg, st
vars == <<tr, l, reg, st>>
Ev == Recs[tr].steps[l]
Ob == Recs[tr].obs.steps[l]
Empty == [k |-> "", v |-> <<>>, l |-> -1, c |-> 0, ch |-> <<>>]

Scribble(x) == [x EXCEPT !.v = Append(@, 33), !.l = 77, !.ch = Append(@, [k |-> "scribble", v |-> <<>>, l |-> -1, c |-> 0, ch |-> <<>>])]
Same(x, i) == LET n == Len(x.ch)
              IN [n |-> n, size |-> Size(x),
                  child |-> [j \in 1..(2 * n + 4) |-> LET i2 == j - n - 3 IN IF InRange(x, i2) THEN At(x, i2).k ELSE ""],
                  is |-> [j \in 1..(2 * n + 4) |-> IF ChildIs(x, j - n - 3, Ev.ks[1]) THEN 1 ELSE 0],
                  at |-> [j \in 1..(2 * n + 4) |-> IF ChildAt(x, j - n - 3, Ev.ks) THEN 1 ELSE 0],
                  idx |-> [j \in 1..(2 * n + 4) |-> IF InRange(x, j - n - 3) THEN Idx(x, j - n - 3) ELSE -1]]

(* [r: registers after the event, ok: the answers agree, id: property] *)
Step1 ==
  CASE Ev.do = "build" -> [r |-> [reg EXCEPT ![Ev.r] = Ev.t], ok |-> TRUE, id |-> Ev.id]
    [] Ev.do = "text" ->
         LET s == ReadLines(Text0, Ev.lines)
         IN IF IsTree(s) THEN [r |-> [reg EXCEPT ![Ev.r] = TreeOf(s)], ok |-> Ob.err = 0, id |-> "C14"]
            ELSE [r |-> reg, ok |-> Ob.err = 1, id |-> "C14"]
    [] Ev.do = "print" -> [r |-> [reg EXCEPT ![Ev.r] = Unplaced(reg[3 - Ev.r])], ok |-> Ob.err = 0, id |-> "C14"]
    [] Ev.do = "clone" -> [r |-> [reg EXCEPT ![Ev.r] = reg[3 - Ev.r]], ok |-> TRUE, id |-> "C14"]
    [] Ev.do = "scribble" -> [r |-> [reg EXCEPT ![Ev.r] = UpdateAt(Scribble, @, Ev.path)], ok |-> TRUE, id |-> Ev.id]
    [] Ev.do = "edit" ->
         [r |-> [reg EXCEPT ![Ev.r] = UpdateAt(LAMBDA x : Edit(Ev.op, x), @, Ev.path)],
          ok |-> Ob.ret = Reports(Ev.op, NodeAt(reg[Ev.r], Ev.path)), id |-> "C15"]
    [] Ev.do = "query" -> [r |-> reg, ok |-> Ob.q = Same(NodeAt(reg[Ev.r], Ev.path), 0), id |-> "C15"]
    [] Ev.do = "reduce" ->
         LET R == MergeAll(Ev.rs)
         IN [r |-> [reg EXCEPT ![Ev.r] = Reduce(R, reg[3 - Ev.r])],
             ok |-> Ob.can = [j \in DOMAIN Ev.cans |-> IF HasRule(R, Ev.cans[j]) THEN 1 ELSE 0], id |-> "C16"]
    [] Ev.do = "apply" ->
         [r |-> [reg EXCEPT ![Ev.r] = UpdateAt(LAMBDA x : Apply(Ev.red, x), @, Ev.path)], ok |-> TRUE, id |-> "C16"]

Init == tr \in DOMAIN Recs /\ l = 1 /\ reg = <<Empty, Empty>> /\ st = "run"
Step == /\ st = "run" /\ l <= Len(Recs[tr].steps)
        /\ LET a == TLCEval(Step1)
           IN IF a.ok /\ Ob.links = 1 /\ Ob.regs = a.r
              THEN reg' = a.r /\ l' = l + 1 /\ UNCHANGED <<tr, st>>
              ELSE st' = "bad" /\ PrintT(<<"V", tr, {a.id}>>) /\ UNCHANGED <<tr, l, reg>>
Done == /\ st = "run" /\ l > Len(Recs[tr].steps)
        /\ st' = "ok" /\ PrintT(<<"V", tr, {}>>) /\ UNCHANGED <<tr, l, reg>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
