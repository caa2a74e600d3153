----------------------------- MODULE Trace_Pump -----------------------------
(* Validates what the real code makes of the large members of the families  *)
(* of Pump and LexPump (those of LexPump that MC_LexPump has found to have a *)
(* closed form).  r.id is the property at stake.                             *)
EXTENDS Pump, Json, IOUtils
X == INSTANCE LexPump
Recs == ndJsonDeserialize(IOEnv.VF)
VARIABLES i, st

(* lexemes come as a table of distinct (kind, value, error, column) and, per *)
(* lexeme, its entry and its line                                            *)
Lxs(o) == [j \in DOMAIN o.at |-> [k |-> o.tab[o.at[j]].k, v |-> o.tab[o.at[j]].v, e |-> o.tab[o.at[j]].e,
                                  l |-> o.lines[j], c |-> o.tab[o.at[j]].c]]
Texts(x) == [j \in DOMAIN x |-> [k |-> x[j].k, v |-> x[j].v, e |-> x[j].e]]
LexBad(o, x) ==
  IF o = x THEN {}
  ELSE IF Len(o) # Len(x) \/ Texts(o) # Texts(x) THEN {"C10", "C11"} ELSE {"C12"}
LexIds(kind, b) == b \ (IF kind = "simple" THEN {"C11"} ELSE {"C10"})
Lexing(r) ==
  LET L == TLCEval(X!Lexer(r.def))
  IN CASE r.fam = "lines" -> LET per == TLCEval(X!Periods(L, r.unit))
                             IN LexIds(r.def.kind, LexBad(TLCEval(Lxs(r.obs)), TLCEval(X!Repeated(per, r.n))))
       [] r.fam = "run" -> LexIds(r.def.kind, LexBad(TLCEval(Lxs(r.obs)), TLCEval(X!Stretch(L, r, X!Base(L, r), r.n))))
       [] r.fam = "deep" -> LexIds("stack", LexBad(TLCEval(Lxs(r.obs)), TLCEval(X!DeepOut(r.f, r.n))))

Bad(r) ==
  CASE r.fam \in {"lines", "run", "deep"} -> Lexing(r)
    [] r.fam = "parse" ->
         IF r.bad = 1 THEN (IF r.obs.ok = 0 THEN {} ELSE {"C01", "C04"})
         ELSE IF r.obs.ok = 0 THEN {"C01", "C04"}
         ELSE IF r.obs.tree # PTree(r.f, r.n) THEN {"C02", "C03", "C04"} ELSE IF r.obs.links # "" THEN {"C02"} ELSE {}
    [] r.fam = "rg" -> IF r.obs.ok = 1 /\ r.obs.tree = RTree(r.f, r.n) THEN {} ELSE {"C09"}
    [] r.fam = "tree" -> IF r.obs.tree = TreeOut(r.f, r.do, r.n) /\ r.obs.links = "" /\ r.obs.size = Len(r.obs.tree.k)
                            /\ (r.do \notin {"print", "clone", "reduce"} \/ r.obs.src = TreeIn(r.f, r.n)) THEN {} ELSE {r.id}
    [] r.fam = "prog" -> IF r.obs.ok = 1 - r.bad /\ (r.bad = 1 \/ r.obs.v = ProgOut(r.f, r.n)) THEN {} ELSE {ProgId(r.f)}
    [] r.fam = "text" -> IF r.obs.v = TextOut(r.f, r.n) THEN {} ELSE {TextId(r.f)}
    [] r.fam = "set" -> IF r.obs = SetOut(r.n) THEN {} ELSE {"C19"}
    [] r.fam = "gram" -> LET x == GramOut(r.n, r.end)
                         IN (IF \E k \in {"nts", "prods", "heads", "back"} : r.obs[k] # x[k] THEN {"C07"} ELSE {})
                            \cup (IF \E k \in {"lr", "td"} : r.obs[k] # x[k] THEN {"C05"} ELSE {})
                            \cup (IF \E k \in {"first", "other", "nonterm"} : r.obs[k] # x[k] THEN {"C20"} ELSE {})

Init == i \in DOMAIN Recs /\ st = "todo"
Next == /\ st = "todo"
        /\ UNCHANGED i
        /\ LET b == Bad(Recs[i]) IN
             /\ st' = (IF b = {} THEN "accepted" ELSE "rejected")
             /\ PrintT(<<"V", i, b>>)
Spec == Init /\ [][Next]_<<i, st>>
=============================================================================
