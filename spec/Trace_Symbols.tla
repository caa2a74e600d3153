--------------------------- MODULE Trace_Symbols ---------------------------
EXTENDS Symbols, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES tr, l, s, st
Ev == Recs[tr].steps[l]
Ob == Recs[tr].obs.steps[l]
Init == tr \in DOMAIN Recs /\ l = 1 /\ s = Empty /\ st = "run"
Step == /\ st = "run" /\ l <= Len(Recs[tr].steps)
        /\ IF Answers(s, Ev, Ob.r) /\ Ob.note = "" /\ Ob.view = View(Apply(s, Ev))
           THEN s' = Apply(s, Ev) /\ l' = l + 1 /\ UNCHANGED <<tr, st>>
           ELSE st' = "bad" /\ PrintT(<<"V", tr, {"C19"}>>) /\ UNCHANGED <<tr, l, s>>
Done == /\ st = "run" /\ l > Len(Recs[tr].steps)
        /\ st' = "ok" /\ PrintT(<<"V", tr, {}>>) /\ UNCHANGED <<tr, l, s>>
Next == Step \/ Done
Spec == Init /\ [][Next]_<<tr, l, s, st>>
Inv == WellFormed(s)
=============================================================================
