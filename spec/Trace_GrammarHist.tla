------------------------- MODULE Trace_GrammarHist -------------------------
(* Validates histories of operations on a real Grammar, step by step.       *)
(* An event is the operation with its arguments and the projection of the   *)
(* whole grammar observed after it.                                         *)
EXTENDS GrammarText, Json, IOUtils, FiniteSets
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES tr, l, g, st
vars == <<tr, l, g, st>>

Ev == Recs[tr].steps[l]
Ob == Recs[tr].obs.steps[l]

(* the grammar after the event, <<g>>, or <<>> if the observation contradicts it *)
After ==
  CASE Ev.do = "new" ->
         LET s == ReadText(Ev.text)
         IN IF s.err THEN (IF Ob.err = 1 THEN <<g>> ELSE <<>>)
            ELSE IF Ob.err = 0 THEN <<s.g>> ELSE <<>>
    [] Ev.do = "empty" -> <<EmptyG>>
    [] Ev.do = "add" -> <<AddProd(g, Ev.from, Ev.to)>>
    [] Ev.do = "query" ->
         IF Ob.isnt = (IF Has(g, Ev.sym) THEN 1 ELSE 0) /\ Ob.prods = ProdsOf(g, Ev.sym) THEN <<g>> ELSE <<>>
    [] Ev.do = "print" -> IF Ob.err = 0 /\ Ob.back = g THEN <<g>> ELSE <<>>
    [] Ev.do = "scribble" -> <<g>>

Init == tr \in DOMAIN Recs /\ l = 1 /\ g = EmptyG /\ st = "run"
Step == /\ st = "run" /\ l <= Len(Recs[tr].steps)
        /\ LET a == After
           IN IF a # <<>> /\ Ob.g = a[1]
              THEN g' = a[1] /\ l' = l + 1 /\ UNCHANGED <<tr, st>>
              ELSE st' = "bad" /\ PrintT(<<"V", tr, {"C07"}>>) /\ UNCHANGED <<tr, l, g>>
Done == /\ st = "run" /\ l > Len(Recs[tr].steps)
        /\ st' = "ok" /\ PrintT(<<"V", tr, {}>>) /\ UNCHANGED <<tr, l, g>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
