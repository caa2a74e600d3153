-------------------------- MODULE Trace_RegexGram ---------------------------
(* Validates the grammar and the reducer that the real regexgram.New made of *)
(* a text, the reducer on derivation trees of that grammar.                  *)
EXTENDS RegexGram, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES tr, st
vars == <<tr, st>>
Bad(r) ==
  LET p == ParseText(r.ts)
  IN IF ~p.ok THEN (IF r.obs.err = 1 /\ r.obs.have = 0 THEN {} ELSE {"C08"})
     ELSE IF r.obs.err # 0 \/ r.obs.have # 1 THEN {"C08"}
     ELSE (IF r.what = "lang" /\ ~Means(p.D, r.obs.g, r.n) THEN {"C08"} ELSE {})
       \cup (IF \A j \in DOMAIN r.obs.trees : r.obs.trees[j].after = Flat(p.D, r.obs.trees[j].before) THEN {} ELSE {"C09"})
Init == tr \in DOMAIN Recs /\ st = "run"
Next == /\ st = "run" /\ st' = "done" /\ UNCHANGED tr
        /\ PrintT(<<"V", tr, Bad(Recs[tr])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
