---------------------------- MODULE Trace_Render ----------------------------
(* Validates what the real helpers did.                                      *)
EXTENDS Render, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES tr, st
vars == <<tr, st>>
GoodLex(r) ==
  LET ls == r.ls o == r.obs
  IN /\ o.str = LexemeString(ls) /\ o.list = LexemeList(ls) /\ o.errs = LexErrors(ls)
     /\ \A i \in DOMAIN ls : /\ o.seen[i] = [k |-> ls[i].k, v |-> ls[i].v, l |-> ls[i].l, c |-> ls[i].c]
                             /\ (ls[i].how \in 0..2 => o.own[i] = Own(ls[i]))
GoodMust(r) ==
  LET m == Must(r.obj, r.err) o == r.obs
  IN /\ o.panics = m.panics
     /\ (m.panics = 1 => o.samerr = 1)
     /\ (m.panics = 0 => o.obj = m.obj)
GoodText(r) ==      \* Must of a constructor that reads a text, beside the constructor itself
  LET o == r.obs IN o.panics = o.newerr /\ (o.panics = 1 => o.iserr = 1) /\ (o.panics = 0 => o.same = 1)
GoodIter(r) ==
  LET o == r.obs
  IN /\ o.visits = [i \in DOMAIN r.ps |-> [i |-> i - 1, s |-> Visits(r.ps[i])]]
     /\ o.after = 0
GoodErr(r) ==
  LET o == r.obs
      es == ErrorRuns(r.in, IF r.form = "simple" THEN 0 ELSE 1)
  IN /\ o.errs = [i \in DOMAIN es |-> [k |-> r.kind, v |-> es[i].v, l |-> es[i].l, c |-> es[i].c, msg |-> Message(es[i])]]
     /\ o.symlen = Characters(r.kind) /\ o.setlen = o.symlen
Good(r) == CASE r.what = "lexemes" -> GoodLex(r)
             [] r.what = "must" -> GoodMust(r)
             [] r.what = "musttext" -> GoodText(r)
             [] r.what = "errtext" -> GoodErr(r)
             [] r.what = "iter" -> GoodIter(r)
Init == tr \in DOMAIN Recs /\ st = "run"
Next == /\ st = "run" /\ st' = "done" /\ UNCHANGED tr
        /\ PrintT(<<"V", tr, IF Good(Recs[tr]) THEN {} ELSE {"C24"}>>)
Spec == Init /\ [][Next]_vars
=============================================================================
