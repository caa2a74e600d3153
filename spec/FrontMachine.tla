--------------------------- MODULE FrontMachine ---------------------------
(***************************************************************************)
(* What can stand at the front of a sentential form.  For one grammar and  *)
(* one non-terminal the machine collects the symbols that can be reached   *)
(* at the front by expanding the front symbol with a production and        *)
(* erasing a prefix that derives the empty string.  Nullability is taken   *)
(* from the bounded language (length 0), not from the Nullable fixpoint,   *)
(* so the closures of Grammars.tla are checked against another definition. *)
(***************************************************************************)
EXTENDS Grammars, Json, IOUtils

Grams == ndJsonDeserialize(IOEnv.GF)
PMs == TLCEval([x \in DOMAIN Grams |-> PM(Grams[x])])

VARIABLES gi, a0, front, st, null, facts
vars == <<gi, a0, front, st, null, facts>>
P == PMs[gi]

(* symbols that can follow an erased prefix in some production of B *)
Fronts(B, N) == UNION {{r[k] : k \in {k \in DOMAIN r : \A m \in 1..(k-1) : r[m] \in N}} : r \in Rhs(P, B)}

Init == /\ gi \in DOMAIN Grams
        /\ a0 \in NTs(Grams[gi])
        /\ front = {} /\ st = "new" /\ null = {} /\ facts = <<>>

Load == /\ st = "new" /\ st' = "run"
        /\ LET L == LangUpTo(P, 0)
           IN /\ null' = {A \in DOMAIN P : <<>> \in L[A]}
              /\ front' = Fronts(a0, null')
        /\ UNCHANGED <<gi, a0, facts>>

Expand == /\ st = "run"
          /\ \E B \in front \cap DOMAIN P :
               /\ ~(Fronts(B, null) \subseteq front)
               /\ front' = front \cup Fronts(B, null)
          /\ UNCHANGED <<gi, a0, st, null, facts>>

Stable == \A B \in front \cap DOMAIN P : Fronts(B, null) \subseteq front

Halt == /\ st = "run" /\ Stable
        /\ st' = "halt"
        /\ facts' = [lr |-> LeftRecursive(P), first |-> FirstOf(P)[a0], nil |-> a0 \in NilInFirst(P), nullable |-> Nullable(P)]
        /\ UNCHANGED <<gi, a0, front, null>>
        /\ PrintT("CASE " \o ToJson([g |-> Grams[gi], a |-> a0, start |-> a0 = Start(Grams[gi]), lr |-> IF facts'.lr THEN 1 ELSE 0,
                                    first |-> front \ DOMAIN P,
                                    nil |-> IF \E B \in (front \cap DOMAIN P) \cup {a0} : <<>> \in Rhs(P, B) THEN 1 ELSE 0]))

Next == Load \/ Expand \/ Halt
Spec == Init /\ [][Next]_vars

(* the operators used as oracles agree with the machine *)
Agrees == st = "halt" =>
            /\ null = facts.nullable
            /\ (a0 \in front) => facts.lr
            /\ front \ DOMAIN P = facts.first
            /\ facts.nil = (\E B \in (front \cap DOMAIN P) \cup {a0} : <<>> \in Rhs(P, B))
            /\ (a0 \notin front /\ Cardinality(DOMAIN P) = 1) => ~facts.lr
=============================================================================
