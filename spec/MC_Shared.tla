----------------------------- MODULE MC_Shared ------------------------------
(* Callers that lex at the same time with one lexer, every interleaving of   *)
(* the steps of their machines (Lex.tla). Each ends with the result of its   *)
(* input alone.                                                              *)
EXTENDS Lex, Json, IOUtils
S == INSTANCE Shared
Defs == ndJsonDeserialize(IOEnv.DF)          \* [def, alpha, ins]
NP == 2
VARIABLES d, lx, open, b, s, res
vars == <<d, lx, open, b, s, res>>
Ins == Defs[d].ins
Init == /\ d \in DOMAIN Defs /\ lx = NoLexer /\ open = S!Idle(NP)
        /\ b = [p \in 1..NP |-> 0] /\ s = [p \in 1..NP |-> Fresh] /\ res = [p \in 1..NP |-> <<>>]
Load == lx = NoLexer /\ lx' = TLCEval(Lexer(Defs[d].def)) /\ UNCHANGED <<d, open, b, s, res>>
In(p) == Ins[b[p]]
Call(p) == /\ lx # NoLexer /\ S!CanBegin(open, p) /\ b[p] = 0
           /\ \E k \in DOMAIN Ins : b' = [b EXCEPT ![p] = k] /\ open' = S!Begin(open, p, k)
           /\ UNCHANGED <<d, lx, s, res>>
Step(p) == /\ open[p] # 0 /\ ~AtEnd(s[p], In(p))
           /\ s' = [s EXCEPT ![p] = LexStep(lx, @, In(p))] /\ UNCHANGED <<d, lx, open, b, res>>
Ret(p) == /\ open[p] # 0 /\ AtEnd(s[p], In(p))
          /\ res' = [res EXCEPT ![p] = Finish(lx, s[p], In(p))]
          /\ open' = S!End(open, p) /\ UNCHANGED <<d, lx, b, s>>
Emit == /\ d # 0 /\ d' = 0
        /\ \A p \in 1..NP : b[p] # 0 /\ open[p] = 0
        /\ PrintT("CASE " \o ToJson([d |-> d, who |-> b, exp |-> res])) /\ UNCHANGED <<lx, open, b, s, res>>
Next == Load \/ Emit \/ (d # 0 /\ \E p \in 1..NP : Call(p) \/ Step(p) \/ Ret(p))
Spec == Init /\ [][Next]_vars
NoInterference == \A p \in 1..NP : d # 0 /\ b[p] # 0 /\ open[p] = 0 => res[p] = LexAll(lx, In(p))
=============================================================================
