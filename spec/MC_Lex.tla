------------------------------- MODULE MC_Lex -------------------------------
(* The lexing machine on each definition of the file DF and every input of   *)
(* at most MAXIN bytes over its alphabet.                                    *)
EXTENDS Lex, Json, IOUtils
Defs == ndJsonDeserialize(IOEnv.DF)
MaxIn == atoi(IOEnv.MAXIN)
VARIABLES d, lx, b, s, st
vars == <<d, lx, b, s, st>>
Init == d \in DOMAIN Defs /\ lx = NoLexer /\ b = <<>> /\ s = Fresh /\ st = "load"
Load == /\ st = "load"
        /\ lx' = TLCEval([Lexer(Defs[d].def) EXCEPT !.mode = Defs[d].mode, !.start = Defs[d].start, !.end = Defs[d].end])
        /\ st' = "input" /\ UNCHANGED <<d, b, s>>
Type == /\ st = "input" /\ Len(b) < MaxIn
        /\ \E k \in DOMAIN Defs[d].alpha : b' = Append(b, Defs[d].alpha[k])
        /\ UNCHANGED <<d, lx, s, st>>
Begin == st = "input" /\ st' = "lex" /\ UNCHANGED <<d, lx, b, s>>
Busy == st = "lex" /\ ~AtEnd(s, b)
Match == /\ Busy
         /\ LET m == Chosen(lx, s, b) IN m # <<>> /\ s' = StepMatch(lx, s, b, m[1])
         /\ UNCHANGED <<d, lx, b, st>>
FallBack == /\ Busy /\ Chosen(lx, s, b) = <<>> /\ Len(s.stk) > 1
            /\ s' = StepFallBack(s) /\ UNCHANGED <<d, lx, b, st>>
Error == /\ Busy /\ Chosen(lx, s, b) = <<>> /\ Len(s.stk) = 1
         /\ s' = StepError(s) /\ UNCHANGED <<d, lx, b, st>>
Emit == /\ st = "lex" /\ AtEnd(s, b) /\ st' = "halt" /\ s' = Flush(lx, s, b) /\ UNCHANGED <<d, lx, b>>
        /\ PrintT("CASE " \o ToJson([d |-> d, w |-> b, exp |-> Finish(lx, s, b)]))
Next == Load \/ Type \/ Begin \/ Match \/ FallBack \/ Error \/ Emit
Spec == Init /\ [][Next]_vars

(* nothing is lost or invented: the consumed spans tile the input, error runs are maximal *)
Tiled == LET n == Len(s.spans)
             upto == IF n = 0 THEN 1 ELSE s.spans[n][2]
         IN /\ \A k \in 1..n : s.spans[k][1] < s.spans[k][2]
                               /\ s.spans[k][1] = (IF k = 1 THEN 1 ELSE s.spans[k - 1][2])
            /\ upto = (IF s.err = 0 THEN s.p ELSE s.err)
            /\ \A k \in 1..(n - 1) : ~(s.spans[k][3] = "error" /\ s.spans[k + 1][3] = "error")
            /\ st = "halt" => upto = Len(b) + 1
StackOk == Len(s.stk) >= 1 /\ s.stk[1] = 1
Counts == Len(s.out) = Cardinality({k \in DOMAIN s.spans : s.spans[k][3] # "discard"})
PosOk == \A k \in 1..Len(s.out) - 1 :
           \/ s.out[k].l < s.out[k + 1].l
           \/ s.out[k].l = s.out[k + 1].l /\ s.out[k].c < s.out[k + 1].c
(* every step consumes text or shortens the stack *)
Progress == [][st = "lex" /\ st' = "lex" => s'.p > s.p \/ (s'.p = s.p /\ Len(s'.stk) < Len(s.stk))]_vars
=============================================================================
