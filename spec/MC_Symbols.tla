----------------------------- MODULE MC_Symbols -----------------------------
(* All histories of Depth operations over two sets and two texts.           *)
EXTENDS Symbols, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
T == {"a", "b"}
VARIABLES s, hist, st
Events ==
  {[do |-> "str", set |-> k, text |-> t] : k \in {1}, t \in T}
  \cup {[do |-> "conv", set |-> 2, from |-> 1, text |-> t] : t \in {"a"}}
  \cup {[do |-> "hassym", set |-> 2, from |-> k, text |-> t] : k \in {0, 1}, t \in {"b"}}
  \cup {[do |-> "byidx", set |-> 1, i |-> i] : i \in {0, 1}}
  \cup {[do |-> "prod", set |-> 1, from |-> f, texts |-> x] : f \in {0, 2}, x \in {<<"a">>, <<"b", "a">>}}
  \cup {[do |-> "padd", h |-> h, from |-> 0, texts |-> <<x>>] : h \in DOMAIN s.ph, x \in T}
  \cup {[do |-> "pcast", set |-> k, h |-> h] : h \in DOMAIN s.ph, k \in {1, 2}}
  \cup {[do |-> "list", set |-> k, hs |-> <<h>>] : h \in DOMAIN s.ph, k \in {1, 2}}
  \cup {[do |-> "ladd", h |-> l, hs |-> <<h>>] : l \in DOMAIN s.lh, h \in DOMAIN s.ph}
  \cup {[do |-> "lget", h |-> l, i |-> 0] : l \in DOMAIN s.lh}
  \cup {[do |-> "lcast", set |-> k, h |-> l] : l \in DOMAIN s.lh, k \in {1, 2}}
Init == s = Empty /\ hist = <<>> /\ st = "run"
Do == /\ st = "run" /\ Len(hist) < Depth
      /\ \E e \in Events : s' = Apply(s, e) /\ hist' = Append(hist, e)
      /\ UNCHANGED st
Emit == /\ st = "run" /\ Len(hist) = Depth /\ st' = "halt" /\ UNCHANGED <<s, hist>>
        /\ PrintT("CASE " \o ToJson([steps |-> hist, exp |-> View(s)]))
Next == Do \/ Emit
Spec == Init /\ [][Next]_<<s, hist, st>>
Inv == WellFormed(s)
=============================================================================
