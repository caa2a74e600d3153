----------------------------- MODULE Trace_Json -----------------------------
(* Validates what the real Format returned for a text and for its output.    *)
EXTENDS JsonText, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES tr, st
vars == <<tr, st>>
Good(r) ==
  LET ts == Tokens(r.text)
  IN IF ~Doc(ts).ok THEN r.obs.err = 1 /\ r.obs.out = <<>>
     ELSE r.obs.err = 0 /\ Tokens(r.obs.out) = ts /\ r.obs.err2 = 0 /\ r.obs.out2 = r.obs.out
Init == tr \in DOMAIN Recs /\ st = "run"
Next == /\ st = "run" /\ st' = "done" /\ UNCHANGED tr
        /\ PrintT(<<"V", tr, IF Good(Recs[tr]) THEN {} ELSE {"C22"}>>)
Spec == Init /\ [][Next]_vars
=============================================================================
