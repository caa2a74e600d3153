----------------------------- MODULE Trace_Gram -----------------------------
(* Validates what the real code says about grammars:                        *)
(*  what = "lr":      IsLeftRecursive and topdown.New                 (C05) *)
(*  what = "remove":  RemoveLeftRecursion                             (C06) *)
(*  what = "analyze": Analyze and its queries                         (C20) *)
EXTENDS Grammars, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES i, st

B2(x) == IF x THEN 1 ELSE 0

LrBad(r) ==
  LET lr == B2(LeftRecursive(PM(r.g)))
  IN r.obs.lr # lr \/ r.obs.td # lr \/ r.obs.again # lr \/ r.obs.g1 # r.g

RemoveBad(r) ==
  LET P == PM(r.g)
      h == r.obs.out
      Q == PM(h)
      n == r.n
      L == TLCEval(LangUpTo(P, n))
      M == TLCEval(LangUpTo(Q, n))
  IN \/ r.obs.g1 # r.g
     \/ Cardinality(NTs(h)) # Len(h.nts)
     \/ ~(DOMAIN P \subseteq DOMAIN Q)
     \/ Start(h) # Start(r.g)
     \/ LeftRecursive(Q)
     \/ r.obs.islr # 0
     \/ \E A \in DOMAIN P : L[A] # M[A]

AnalyzeBad(r) ==
  LET P == PM(r.g)
      F == TLCEval(FirstOf(P))
      N == TLCEval(NilInFirst(P))
      S == TLCEval(Symbols(P))
  IN \E k \in DOMAIN r.qs :
       LET s == r.qs[k]
           o == r.obs.ans[k]
       IN \/ o.contains # B2(s \in S)
          \/ o.nonterm # B2(s \in DOMAIN P)
          \/ s \in DOMAIN P /\ o.nil # B2(s \in N)
          \/ s \notin S /\ (o.nil # 0 \/ \E m \in DOMAIN r.qs : o.first[m] # 0)
          \/ s \in DOMAIN P /\ \E m \in DOMAIN r.qs :
                r.qs[m] \notin DOMAIN P /\ o.first[m] # B2(r.qs[m] \in F[s])

Bad(r) == CASE r.what = "lr" -> IF LrBad(r) THEN {"C05"} ELSE {}
            [] r.what = "remove" -> IF RemoveBad(r) THEN {"C06"} ELSE {}
            [] r.what = "analyze" -> IF AnalyzeBad(r) \/ r.obs.g1 # r.g THEN {"C20"} ELSE {}

Init == i \in DOMAIN Recs /\ st = "todo"
Next == /\ st = "todo"
        /\ UNCHANGED i
        /\ LET b == Bad(Recs[i]) IN
             /\ st' = (IF b = {} THEN "accepted" ELSE "rejected")
             /\ PrintT(<<"V", i, b>>)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
