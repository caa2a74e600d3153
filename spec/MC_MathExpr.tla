---------------------------- MODULE MC_MathExpr -----------------------------
(* Emits what each text means.  SRC = "bytes": all texts of at most MAXIN    *)
(* bytes over ALPHA; "tokens": all token sequences of at most MAXIN tokens   *)
(* with a viable prefix; "file": the texts of the file VF.                   *)
EXTENDS MathExpr, Json, IOUtils
Src == IOEnv.SRC
MaxIn == atoi(IOEnv.MAXIN)
Recs == IF Src = "file" THEN ndJsonDeserialize(IOEnv.VF) ELSE <<>>
Alpha == {49, 46, 45, 42, 40, 41, 32, 120}                    \* 1 . - * ( ) blank x
Pieces == {<<51>>, <<43>>, <<45>>, <<42>>, <<47>>, <<40>>, <<41>>}  \* 3 + - * / ( )
VARIABLES b, n, st
vars == <<b, n, st>>
M == Meaning(b)
Viable == M.ok \/ M.p > Len(Toks(b, 1, <<>>))
Init == \/ Src = "file" /\ \E i \in DOMAIN Recs : b = Recs[i].text /\ n = i /\ st = "emit"
        \/ Src # "file" /\ b = <<>> /\ n = 0 /\ st = "type"
Type == /\ st = "type" /\ n < MaxIn /\ n' = n + 1 /\ UNCHANGED st
        /\ \/ Src = "bytes" /\ \E x \in Alpha : b' = Append(b, x)
           \/ Src = "tokens" /\ Viable /\ \E x \in Pieces : b' = b \o (IF b # <<>> /\ Digit(b, Len(b)) /\ Digit(x, 1) THEN <<32>> ELSE <<>>) \o x
Emit == /\ st \in {"type", "emit"} /\ st' = "halt" /\ UNCHANGED <<b, n>>
        /\ PrintT("CASE " \o ToJson([text |-> b, n |-> n, exp |-> IF M.ok THEN [ok |-> 1, c |-> M.c] ELSE [ok |-> 0, c |-> <<>>]]))
Next == Type \/ Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* A second reading: the operator evaluated last is the rightmost + or -     *)
(* outside parentheses that stands between two operands, else the rightmost  *)
(* such * or /.                                                              *)
Depth(ts, k) == LET F[j \in 0..k] == IF j = 0 THEN 0 ELSE F[j - 1] + (IF ts[j].t = "(" THEN 1 ELSE IF ts[j].t = ")" THEN -1 ELSE 0) IN F[k]
Between(ts, k) == k > 1 /\ ts[k - 1].t \in {"num", ")"} /\ Depth(ts, k) = 0
RECURSIVE Read2(_)
Read2(ts) ==
  LET P(S) == {k \in DOMAIN ts : ts[k].t \in S /\ Between(ts, k)}
      c == IF P({"+", "-"}) # {} THEN P({"+", "-"}) ELSE P({"*", "/"})
  IN IF c # {} THEN LET k == CHOOSE k \in c : \A m \in c : m <= k
                    IN Read2(SubSeq(ts, 1, k - 1)) \o Read2(SubSeq(ts, k + 1, Len(ts))) \o I(ts[k].t)
     ELSE IF Len(ts) = 1 THEN <<[o |-> "num", v |-> ts[1].v]>>
     ELSE IF Len(ts) = 2 THEN <<[o |-> "num", v |-> ts[2].v]>> \o (IF ts[1].t = "-" THEN I("neg") ELSE <<>>)
     ELSE Read2(SubSeq(ts, 2, Len(ts) - 1))
SameReading == M.ok => Read2(Toks(b, 1, <<>>)) = M.c
(* the program leaves exactly one value and never lacks an operand *)
Height(c, k) == LET F[j \in 0..k] == IF j = 0 THEN 0 ELSE F[j - 1] + (CASE c[j].o = "num" -> 1 [] c[j].o = "neg" -> 0 [] OTHER -> -1) IN F[k]
Runs == M.ok => /\ Height(M.c, Len(M.c)) = 1
                /\ \A k \in DOMAIN M.c : Height(M.c, k) >= 1
=============================================================================
