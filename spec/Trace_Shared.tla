---------------------------- MODULE Trace_Shared ----------------------------
(* Replays recorded histories of concurrent calls through Shared.tla: events *)
(* [p, c, e, r] (e = 0: caller p begins call c; e = 1: it got r) in order of *)
(* time; alone[c] is the result of call c without any other.                 *)
EXTENDS Shared, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES tr, i, open, st
vars == <<tr, i, open, st>>
O == Recs[tr].obs
E == O.evs[i]
Init == tr \in DOMAIN Recs /\ i = 1 /\ open = <<>> /\ st = "load"
Load == st = "load" /\ st' = "run" /\ open' = Idle(O.n) /\ UNCHANGED <<tr, i>>
Go == st = "run" /\ i <= Len(O.evs)
Fits == IF E.e = 0 THEN CanBegin(open, E.p) ELSE CanEnd(open, E.p, E.c, E.r, O.alone)
StepB == Go /\ E.e = 0 /\ Fits /\ open' = Begin(open, E.p, E.c) /\ i' = i + 1 /\ UNCHANGED <<tr, st>>
StepE == Go /\ E.e = 1 /\ Fits /\ open' = End(open, E.p) /\ i' = i + 1 /\ UNCHANGED <<tr, st>>
Reject == Go /\ ~Fits /\ st' = "bad" /\ PrintT(<<"V", tr, {"C25"}>>) /\ UNCHANGED <<tr, i, open>>
Accept == st = "run" /\ i > Len(O.evs) /\ st' = "done" /\ UNCHANGED <<tr, i, open>>
          /\ PrintT(<<"V", tr, IF \A p \in DOMAIN open : open[p] = 0 THEN {} ELSE {"C25"}>>)
Next == Load \/ StepB \/ StepE \/ Reject \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
