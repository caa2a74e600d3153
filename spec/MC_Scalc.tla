------------------------------ MODULE MC_Scalc ------------------------------
(* Emits what each sequence of words means.  SRC = "all": all sequences of   *)
(* at most MAXIN words over Words; "file": the sequences of the file VF.     *)
EXTENDS Scalc, Json, IOUtils
Src == IOEnv.SRC
MaxIn == atoi(IOEnv.MAXIN)
Recs == IF Src = "file" THEN ndJsonDeserialize(IOEnv.VF) ELSE <<>>
W(t, v) == [t |-> t, v |-> v]
Words == {W("num", <<50>>), W("num", <<45, 51, 46, 53>>), W("uop", <<45, 45>>), W("bop", <<45>>), W("sop", <<115, 117, 109>>),
          W("?", <<63>>), W("(", <<40>>), W(")", <<41>>)}          \* 2 -3.5 -- - sum ? ( )
VARIABLES ws, n, s, st
vars == <<ws, n, s, st>>
Init == \/ Src = "file" /\ \E i \in DOMAIN Recs : ws = Recs[i].ws /\ n = i /\ st = "emit" /\ s = Fresh
        \/ Src = "all" /\ ws = <<>> /\ n = 0 /\ st = "type" /\ s = Fresh
Type == /\ st = "type" /\ n < MaxIn /\ n' = n + 1 /\ UNCHANGED st
        /\ \E w \in Words : ws' = Append(ws, w) /\ s' = IF s.res = "run" THEN Step(s, w) ELSE s
Emit == /\ st \in {"type", "emit"} /\ st' = "halt" /\ UNCHANGED <<ws, n, s>>
        /\ PrintT("CASE " \o ToJson([ws |-> ws, n |-> n, exp |-> Meaning(ws), aff |-> Affected(ws)]))
Next == Type \/ Emit
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* a program never lacks an operand, and leaves one value per value on the stack *)
Delta(i) == CASE i.o = "num" -> 1 [] i.o = "uop" -> 0 [] i.o = "bop" -> -1 [] i.o = "?" -> -2 [] i.o = "sop" -> 1 - i.n
Height(c, k) == LET F[j \in 0..k] == IF j = 0 THEN 0 ELSE F[j - 1] + Delta(c[j]) IN F[k]
Runs == s.res = "run" => \A j \in DOMAIN s.fs :
          /\ s.fs[j].free \in 0..Len(s.fs[j].vals)
          /\ \A v \in DOMAIN s.fs[j].vals :
               LET c == s.fs[j].vals[v] IN Height(c, Len(c)) = 1 /\ \A k \in DOMAIN c : Height(c, k) >= 0
(* numbers, unary and binary operators: counting decides *)
Counts == (st = "type" /\ ~Has(ws, {"sop", "?", "(", ")"})) =>
  (Meaning(ws).ok = 1) = (\A k \in DOMAIN ws : LET f(x) == Len(SelectSeq(SubSeq(ws, 1, k), LAMBDA y : y.t = x))
                                               IN f("num") - f("bop") >= 1 /\ (ws[k].t = "bop" => f("num") - f("bop") >= 1))
=============================================================================
