------------------------------ MODULE RemoveLR ------------------------------
(***************************************************************************)
(* Removing left recursion from a grammar without empty productions, as a  *)
(* machine on the grammar itself.  The non-terminals are taken in an order *)
(* the environment chooses, not the order of writing.  For the current one *)
(*   Substitute  replaces a production that starts with a finished         *)
(*               non-terminal B by one production per production of B,     *)
(*   Turn        replaces the recursion A -> A x | y  by                   *)
(*               A -> y | y A',  A' -> x | x A'   (nothing is empty),      *)
(*   Drop        forgets A -> A.                                           *)
(* Steps may be taken in any order.  Invariant: every step leaves the      *)
(* language of every original non-terminal as it was, and in the end the   *)
(* grammar is not left recursive.                                          *)
(***************************************************************************)
EXTENDS Grammars, Json, IOUtils

Grams == ndJsonDeserialize(IOEnv.GF)
N == atoi(IOEnv.MAXLEN)
PMs == TLCEval([x \in DOMAIN Grams |-> PM(Grams[x])])

VARIABLES gi, P, cur, fin, st, lang
vars == <<gi, P, cur, fin, st, lang>>

Orig == DOMAIN PMs[gi]
(* P[A] is the set of right hand sides of A *)
Helper(A) == A \o "^"

Init == /\ gi \in DOMAIN Grams
        /\ P = <<>> /\ cur = "" /\ fin = {} /\ st = "new" /\ lang = <<>>

Load == /\ st = "new"
        /\ P' = TLCEval([A \in Orig |-> Rhs(PMs[gi], A)])
        /\ lang' = TLCEval(LangUpTo(PMs[gi], N))
        /\ st' = "pick"
        /\ UNCHANGED <<gi, cur, fin>>

Pick == /\ st = "pick"
        /\ \E A \in Orig \ fin : cur' = A
        /\ st' = "work"
        /\ UNCHANGED <<gi, P, fin, lang>>

Blocked == {r \in P[cur] : r[1] \in fin}
Direct == {r \in P[cur] : r[1] = cur}

Drop == /\ st = "work" /\ <<cur>> \in P[cur]
        /\ P' = [P EXCEPT ![cur] = @ \ {<<cur>>}]
        /\ UNCHANGED <<gi, cur, fin, st, lang>>

Substitute ==
  /\ st = "work"
  /\ \E r \in Blocked :
       P' = [P EXCEPT ![cur] = (@ \ {r}) \cup {b \o Tail(r) : b \in P[r[1]]}]
  /\ UNCHANGED <<gi, cur, fin, st, lang>>

Turn ==
  /\ st = "work" /\ Blocked = {} /\ <<cur>> \notin P[cur]
  /\ LET H == Helper(cur)
         y == P[cur] \ Direct
         x == {Tail(r) : r \in Direct}
     IN P' = IF Direct = {} THEN P
             ELSE TLCEval([A \in DOMAIN P \cup {H} |->
                    IF A = cur THEN y \cup {s \o <<H>> : s \in y}
                    ELSE IF A = H THEN x \cup {s \o <<H>> : s \in x}
                    ELSE P[A]])
  /\ fin' = fin \cup {cur}
  /\ cur' = ""
  /\ st' = IF fin' = Orig THEN "halt" ELSE "pick"
  /\ UNCHANGED <<gi, lang>>

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SetSeq(S \ {e})

Emit == /\ st = "halt"
        /\ st' = "end"
        /\ PrintT("CASE " \o ToJson([g |-> Grams[gi], n |-> N, lr |-> IF LeftRecursive(PMs[gi]) THEN 1 ELSE 0,
                                    acc |-> SetSeq(lang[Start(Grams[gi])])]))
        /\ UNCHANGED <<gi, P, cur, fin, lang>>

Next == Load \/ Pick \/ Drop \/ Substitute \/ Turn \/ Emit
Spec == Init /\ [][Next]_vars

AsSeqs == TLCEval([A \in DOMAIN P |-> SetSeq(P[A])])
Kept == st \in {"pick", "work", "halt"} =>
          LET L == TLCEval(LangUpTo(AsSeqs, N)) IN \A A \in Orig : L[A] = lang[A]
Removed == st = "halt" => ~LeftRecursive(AsSeqs)
NoEmpty == \A A \in DOMAIN P : <<>> \notin P[A]
=============================================================================
