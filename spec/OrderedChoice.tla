--------------------------- MODULE OrderedChoice ---------------------------
(***************************************************************************)
(* The topdown parser as a backtracking machine with an explicit stack.    *)
(* A frame [A, s, p, pos, kids] tries production p of A started at s;      *)
(* kids are the subtrees matched so far and pos where they end.  ret holds *)
(* the result returned by the frame popped last.                           *)
(* Invariant at the end: the machine computed what the ordered choice      *)
(* table of Grammars.tla says.                                             *)
(***************************************************************************)
EXTENDS Grammars, Json, IOUtils

Grams == ndJsonDeserialize(IOEnv.GF)
MaxIn == atoi(IOEnv.MAXIN)
Inputs == TLCEval(UNION {[1..n -> {"a", "b"}] : n \in 0..MaxIn})
PMs == TLCEval([x \in DOMAIN Grams |-> PM(Grams[x])])

VARIABLES gi, w, stack, ret, st
vars == <<gi, w, stack, ret, st>>
P == PMs[gi]
S == Start(Grams[gi])
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Frame(A, s, p) == [A |-> A, s |-> s, p |-> p, pos |-> s, kids |-> <<>>]

Init == /\ gi \in DOMAIN Grams /\ w \in Inputs
        /\ stack = <<Frame(S, 0, 1)>>
        /\ ret = <<>>                  \* <<>>: nothing to consume
        /\ st = "run"

Sym == P[Top.A][Top.p][Len(Top.kids) + 1]
Alive == Top.p <= Len(P[Top.A])
Complete == Len(Top.kids) = Len(P[Top.A][Top.p])
Keep(f) == stack' = Append(Below, f)
NextAlt == [Frame(Top.A, Top.s, Top.p + 1) EXCEPT !.p = Top.p + 1]

Exhausted == /\ ret = <<>> /\ ~Alive                              \* no production matched
             /\ stack' = Below /\ ret' = <<"fail">>
Matched   == /\ ret = <<>> /\ Alive /\ Complete
             /\ IF Len(stack) = 1 /\ Top.pos # Len(w)             \* the start must consume everything
                THEN Keep(NextAlt) /\ UNCHANGED ret
                ELSE stack' = Below /\ ret' = <<"ok", [k |-> Top.A, ch |-> Top.kids], Top.pos>>
Terminal  == /\ ret = <<>> /\ Alive /\ ~Complete /\ Sym \notin DOMAIN P
             /\ UNCHANGED ret
             /\ IF Top.pos < Len(w) /\ w[Top.pos + 1] = Sym
                THEN Keep([Top EXCEPT !.pos = @ + 1, !.kids = Append(@, [k |-> Sym, ch |-> <<>>])])
                ELSE Keep(NextAlt)
Descend   == /\ ret = <<>> /\ Alive /\ ~Complete /\ Sym \in DOMAIN P
             /\ stack' = Append(stack, Frame(Sym, Top.pos, 1)) /\ UNCHANGED ret
Return    == /\ ret # <<>> /\ ret' = <<>>
             /\ IF ret[1] = "ok"
                THEN Keep([Top EXCEPT !.pos = ret[3], !.kids = Append(@, ret[2])])
                ELSE Keep(NextAlt)
Halt == /\ stack = <<>> /\ st' = "halt" /\ UNCHANGED <<stack, ret>>
        /\ PrintT("CASE " \o ToJson([g |-> Grams[gi], w |-> w,
                                    exp |-> IF ret[1] = "ok" THEN <<ret[2]>> ELSE <<>>]))
Next == /\ st = "run" /\ UNCHANGED <<gi, w>>
        /\ \/ stack # <<>> /\ st' = st /\ (Exhausted \/ Matched \/ Terminal \/ Descend \/ Return)
           \/ Halt
Spec == Init /\ [][Next]_vars

AgreesWithTable ==
  st = "halt" => LET M == OCTable(P, w)
                     p == OCStart(P, M, w, S)
                 IN ret = IF p = 0 THEN <<"fail">> ELSE <<"ok", OCParse(P, M, w, S), Len(w)>>
(* the machine never re-enters a non-terminal at the position where it already is: not left recursive *)
NoReentry == \A x, y \in DOMAIN stack : x # y => stack[x].A # stack[y].A \/ stack[x].s # stack[y].s
=============================================================================
