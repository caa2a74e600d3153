------------------------- MODULE Trace_ReducerText --------------------------
(* Validates what the real Parse made of a text, and the reducer it returned *)
(* on trees.                                                                 *)
EXTENDS ReducerText, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES tr, st
vars == <<tr, st>>
Good(r) ==
  LET p == ParseReducer(r.ts)
  IN IF ~p.ok THEN r.obs.err = 1 /\ r.obs.have = 0
     ELSE /\ r.obs.err = 0 /\ r.obs.links = 1
          /\ r.obs.outs = [j \in DOMAIN r.trees |-> Reduce(p.R, r.trees[j])]
          /\ r.obs.can = [j \in DOMAIN r.cans |-> IF HasRule(p.R, r.cans[j]) THEN 1 ELSE 0]
Init == tr \in DOMAIN Recs /\ st = "run"
Next == /\ st = "run" /\ st' = "done" /\ UNCHANGED tr
        /\ PrintT(<<"V", tr, IF Good(Recs[tr]) THEN {} ELSE {"C17"}>>)
Spec == Init /\ [][Next]_vars
=============================================================================
