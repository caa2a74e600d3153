---------------------------- MODULE Trace_Parse ----------------------------
(* Validates recorded runs of the real parsers.  A record is a grammar, a   *)
(* list of inputs, the calls made with one parser and what each returned.   *)
(* Verdict per record: the set of properties the run contradicts.           *)
EXTENDS Grammars, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES i, st

TreeOk(P, S, lxs, o, tr) ==
  /\ o.links = ""
  /\ Derivation(P, S, tr, lxs)

(* tables per distinct input *)
PackratBad(r) ==
  LET P == PM(r.g)
      S == Start(r.g)
      cyc == TLCEval(Cyclic(P))
      W == TLCEval([j \in DOMAIN r.ins |-> Kinds(r.ins[j])])
      T == TLCEval([j \in DOMAIN r.ins |-> Ends(P, W[j])])
      B == TLCEval([j \in DOMAIN r.ins |->
             IF ~cyc /\ Derives(P, T[j], W[j], S) THEN Best(P, T[j], W[j], S) ELSE [k |-> S, ch |-> <<>>]])
  IN {x \in {"C01", "C02", "C03"} :
       \E n \in DOMAIN r.obs.res :
         LET o == r.obs.res[n]
             tr == TLCEval(IF o.ok = 1 THEN Unflat(o.tree) ELSE <<>>)
             j == o.in
             d == Derives(P, T[j], W[j], S)
         IN \/ x = "C01" /\ ((o.ok = 1) # d \/ o.same = 0)
            \/ x = "C02" /\ o.ok = 1 /\ ~TreeOk(P, S, r.ins[j], o, tr)
            \/ x = "C03" /\ o.ok = 1 /\ d /\ ~cyc /\ Shape(tr) # B[j]}
     \cup (IF r.obs.g0 # r.g \/ r.obs.g1 # r.g THEN {"C01"} ELSE {})

TopdownBad(r) ==
  LET P == PM(r.g)
      S == Start(r.g)
      lr == LeftRecursive(P)
  IN IF lr THEN (IF r.obs.newerr = "leftrec" THEN {} ELSE {"C05"})
     ELSE IF r.obs.newerr # "" THEN {"C05"}
     ELSE
     LET W == TLCEval([j \in DOMAIN r.ins |-> Kinds(r.ins[j])])
         M == TLCEval([j \in DOMAIN r.ins |-> OCTable(P, W[j])])
     IN {x \in {"C02", "C04"} :
          \E n \in DOMAIN r.obs.res :
            LET o == r.obs.res[n]
                tr == TLCEval(IF o.ok = 1 THEN Unflat(o.tree) ELSE <<>>)
                j == o.in
                p == OCStart(P, M[j], W[j], S)
            IN \/ x = "C04" /\ (o.ok = 1) # (p # 0)
               \/ x = "C04" /\ o.ok = 1 /\ p # 0 /\ Shape(tr) # OCParse(P, M[j], W[j], S)
               \/ x = "C04" /\ o.same = 0
               \/ x = "C02" /\ o.ok = 1 /\ ~TreeOk(P, S, r.ins[j], o, tr)}
        \cup (IF r.obs.g0 # r.g \/ r.obs.g1 # r.g THEN {"C04"} ELSE {})

Bad(r) == IF r.parser = "packrat" THEN PackratBad(r) ELSE TopdownBad(r)

Init == i \in DOMAIN Recs /\ st = "todo"
Next == /\ st = "todo"
        /\ UNCHANGED i
        /\ LET b == Bad(Recs[i]) IN
             /\ st' = (IF b = {} THEN "accepted" ELSE "rejected")
             /\ PrintT(<<"V", i, b>>)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
