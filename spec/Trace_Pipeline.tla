--------------------------- MODULE Trace_Pipeline ---------------------------
(* Follows the calls recorded from real runs: call by call, event by event.  *)
EXTENDS Pipeline, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES tr, h, s, st
vars == <<tr, h, s, st>>
C == Recs[tr].calls[h]
O == Recs[tr].obs.runs[h]
(* the log so far is what was observed so far *)
Follows(t) == Len(t.log) <= Len(O.log) /\ t.log = SubSeq(O.log, 1, Len(t.log))
Fits(t) == t.pc = "end" => t.log = O.log /\ t.tree = O.tree /\ t.err = O.err
Verdict(b) == PrintT(<<"V", tr, b>>)
Init == tr \in DOMAIN Recs /\ h = 1 /\ s = Begin /\ st = "run"
Run == /\ st = "run" /\ h <= Len(Recs[tr].calls) /\ s.pc # "end"
       /\ s' = Step(C, s) /\ UNCHANGED <<tr, h>>
       /\ IF Follows(s') /\ Fits(s') THEN st' = st ELSE st' = "rejected" /\ Verdict({"C18"})
NextCall == /\ st = "run" /\ s.pc = "end" /\ h < Len(Recs[tr].calls)
            /\ h' = h + 1 /\ s' = Begin /\ UNCHANGED <<tr, st>>
Done == /\ st = "run" /\ s.pc = "end" /\ h = Len(Recs[tr].calls)
        /\ st' = "accepted" /\ Verdict({}) /\ UNCHANGED <<tr, h, s>>
Next == Run \/ NextCall \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
