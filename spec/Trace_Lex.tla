----------------------------- MODULE Trace_Lex ------------------------------
(* Validates histories of operations on a real lexer.                        *)
EXTENDS Lex, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES tr, l, lx, def, back, st
vars == <<tr, l, lx, def, back, st>>
Ev == Recs[tr].steps[l]
Ob == Recs[tr].obs.steps[l]

Texts(o) == [k \in DOMAIN o |-> [k |-> o[k].k, v |-> o[k].v, e |-> o[k].e]]
TextId == IF back = 1 THEN "C13" ELSE IF lx.kind = "simple" THEN "C10" ELSE "C11"

(* [l |-> lexer after the event, bad |-> properties the observation contradicts] *)
After ==
  CASE Ev.do = "new" ->
         IF WellFormed(Ev.def)
         THEN [l |-> Lexer(Ev.def), bad |-> IF Ob.err = 0 /\ Ob.have = 1 THEN {} ELSE {"C13"}]
         ELSE [l |-> NoLexer, bad |-> IF Ob.err = 1 /\ Ob.have = 0 THEN {} ELSE {"C13"}]
    [] lx = NoLexer -> [l |-> lx, bad |-> {}]
    [] Ev.do = "again" -> [l |-> Lexer(Recs[tr].steps[def].def), bad |-> IF Ob.err = 0 /\ Ob.have = 1 THEN {} ELSE {"C13"}]
    [] Ev.do = "print" -> [l |-> [lx EXCEPT !.mode = "len", !.start = NoIns, !.end = NoIns, !.err = "Error"],
                           bad |-> IF Ob.err = 0 /\ Ob.have = 1 THEN {} ELSE {"C13"}]
    [] Ev.do = "add" ->
         IF CanAdd(lx, Ev.rule) THEN [l |-> AddRule(lx, Ev.rule), bad |-> IF Ob.err = 0 THEN {} ELSE {"C10"}]
         ELSE [l |-> lx, bad |-> IF Ob.err = 1 THEN {} ELSE {"C10", "C13"}]
    [] Ev.do = "start" -> [l |-> [lx EXCEPT !.start = Ev.ins], bad |-> {}]
    [] Ev.do = "end" -> [l |-> [lx EXCEPT !.end = Ev.ins], bad |-> {}]
    [] Ev.do = "mode" -> [l |-> [lx EXCEPT !.mode = Ev.mode], bad |-> {}]
    [] Ev.do = "seterr" -> [l |-> [lx EXCEPT !.err = Ev.kind], bad |-> {}]
    [] Ev.do = "lex" ->
         LET x == LexAll(lx, Ev.in)
         IN [l |-> lx, bad |-> IF Texts(Ob.lxs) # Texts(x) \/ Ob.kept = 0 THEN {TextId}
                               ELSE IF Ob.lxs # x THEN {"C12"} ELSE {}]

Init == tr \in DOMAIN Recs /\ l = 1 /\ lx = NoLexer /\ def = 0 /\ back = 0 /\ st = "run"
Step == /\ st = "run" /\ l <= Len(Recs[tr].steps)
        /\ LET a == TLCEval(After)
           IN IF a.bad = {}
              THEN /\ lx' = a.l /\ l' = l + 1
                   /\ def' = IF Ev.do = "new" THEN l ELSE def
                   /\ back' = IF Ev.do = "print" THEN 1 ELSE IF Ev.do \in {"new", "again"} THEN 0 ELSE back
                   /\ UNCHANGED <<tr, st>>
              ELSE st' = "bad" /\ PrintT(<<"V", tr, a.bad>>) /\ UNCHANGED <<tr, l, lx, def, back>>
Done == /\ st = "run" /\ l > Len(Recs[tr].steps)
        /\ st' = "ok" /\ PrintT(<<"V", tr, {}>>) /\ UNCHANGED <<tr, l, lx, def, back>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
