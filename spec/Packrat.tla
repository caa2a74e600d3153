------------------------------ MODULE Packrat ------------------------------
(***************************************************************************)
(* The packrat parser as a deduction machine.  The implementation keeps a  *)
(* list of updaters (a partial production and a completed symbol that      *)
(* extends it) and processes them in some order; here each deduction is    *)
(* one action and every order is explored.                                 *)
(*   called  markers <<A, s>> whose productions were added                 *)
(*   parts   partial productions [A, s, p, ends]: the first Len(ends)      *)
(*           symbols of production p of A, started at s, end at ends[i]    *)
(*   alts    completed ones (the alternatives kept per memo key)           *)
(* At quiescence the answer is read off: the memo must be exactly the      *)
(* spans the grammar derives, whatever the order was.                      *)
(***************************************************************************)
EXTENDS Grammars, Json, IOUtils

Grams == ndJsonDeserialize(IOEnv.GF)
MaxIn == atoi(IOEnv.MAXIN)
Alpha == {"a", "b"}
Inputs == TLCEval(UNION {[1..n -> Alpha] : n \in 0..MaxIn})
PMs == TLCEval([x \in DOMAIN Grams |-> PM(Grams[x])])

(* Scheduling: salt 0 explores every order (only where the whole deduction
   has at most AnyMax items, the number of orders is exponential); the other
   salts are fixed pseudo-random orders for every grammar and input. *)
AnyMax == atoi(IOEnv.ANYMAX)
VARIABLES gi, w, called, parts, alts, st, salt,
          T,        \* the spans the grammar derives (fixed once loaded)
          cyc       \* whether the grammar is cyclic (fixed once loaded)
vars == <<gi, w, called, parts, alts, st, salt, T, cyc>>

P == PMs[gi]
S == Start(Grams[gi])
At(x) == IF x.ends = <<>> THEN x.s ELSE x.ends[Len(x.ends)]      \* where x has got to
NextSym(x) == P[x.A][x.p][Len(x.ends) + 1]
Memo(A, s) == {At(x) : x \in {y \in alts : y.A = A /\ y.s = s}}

Empty(A, s) == {[A |-> A, s |-> s, p |-> p, ends |-> <<>>] : p \in {p \in DOMAIN P[A] : P[A][p] = <<>>}}
Fresh(A, s) == {[A |-> A, s |-> s, p |-> p, ends |-> <<>>] : p \in {p \in DOMAIN P[A] : P[A][p] # <<>>}}

(* the whole deduction, as a function (used to size the exploration, and as invariant at the end) *)
RECURSIVE Saturate(_, _, _, _)
Saturate(p0, u, c, I) ==
  LET at(x) == IF x.ends = <<>> THEN x.s ELSE x.ends[Len(x.ends)]
      rhs(x) == p0[x.A][x.p]
      done(x) == Len(x.ends) = Len(rhs(x))
      open == {x \in I : ~done(x)}
      nx(x) == rhs(x)[Len(x.ends) + 1]
      c2 == c \cup {<<nx(x), at(x)>> : x \in {y \in open : nx(y) \in DOMAIN p0}}
      memo(A, s) == {at(y) : y \in {y \in I : done(y) /\ y.A = A /\ y.s = s}}
      I2 == I \cup UNION {{[A |-> m[1], s |-> m[2], p |-> p, ends |-> <<>>] : p \in DOMAIN p0[m[1]]} : m \in c2}
              \cup UNION {{[x EXCEPT !.ends = Append(@, e)] : e \in
                     IF nx(x) \in DOMAIN p0 THEN memo(nx(x), at(x))
                     ELSE IF at(x) < Len(u) /\ u[at(x) + 1] = nx(x) THEN {at(x) + 1} ELSE {}} : x \in open}
  IN IF TLCEval(I2) = I /\ c2 = c THEN I ELSE Saturate(p0, u, TLCEval(c2), TLCEval(I2))
Whole(x, u) == Saturate(PMs[x], u, {<<Start(Grams[x]), 0>>}, {})

Init == /\ gi \in DOMAIN Grams
        /\ w \in Inputs
        /\ salt = 1 /\ T = <<>> /\ cyc = FALSE
        /\ called = {<<S, 0>>}
        /\ parts = Fresh(S, 0)
        /\ alts = Empty(S, 0)
        /\ st = "new"

Load == /\ st = "new" /\ st' = "run"
        /\ UNCHANGED <<gi, w, called, parts, alts>>
        /\ T' = Ends(P, w)
        /\ cyc' = Cyclic(P)
        /\ salt' \in (IF Cardinality(Whole(gi, w)) <= AnyMax THEN {0, 1} ELSE {1, 2})

Extended(x, e) == [x EXCEPT !.ends = Append(@, e)]
IsDone(x) == Len(x.ends) = Len(P[x.A][x.p])
Put(y) == IF IsDone(y) THEN alts' = alts \cup {y} /\ parts' = parts
          ELSE parts' = parts \cup {y} /\ alts' = alts

Predict(x) ==                                                     \* addProds
  /\ NextSym(x) \in DOMAIN P
  /\ <<NextSym(x), At(x)>> \notin called
  /\ called' = called \cup {<<NextSym(x), At(x)>>}
  /\ parts' = parts \cup Fresh(NextSym(x), At(x))
  /\ alts' = alts \cup Empty(NextSym(x), At(x))

Shift(x) ==                                                       \* a terminal matches
  /\ NextSym(x) \notin DOMAIN P
  /\ At(x) < Len(w) /\ w[At(x) + 1] = NextSym(x)
  /\ Extended(x, At(x) + 1) \notin parts \cup alts
  /\ Put(Extended(x, At(x) + 1))
  /\ UNCHANGED called

Complete(x, e) ==                                                 \* update
  /\ Extended(x, e) \notin parts \cup alts
  /\ Put(Extended(x, e))
  /\ UNCHANGED called

CompleteEnds(x) == IF NextSym(x) \in DOMAIN P THEN Memo(NextSym(x), At(x)) ELSE {}
Shiftable(x) == /\ NextSym(x) \notin DOMAIN P
                /\ At(x) < Len(w) /\ w[At(x) + 1] = NextSym(x)
                /\ Extended(x, At(x) + 1) \notin parts \cup alts
Open == {x \in parts : \/ NextSym(x) \in DOMAIN P /\ <<NextSym(x), At(x)>> \notin called
                       \/ \E e \in CompleteEnds(x) : Extended(x, e) \notin parts \cup alts
                       \/ Shiftable(x)}
Prio(x) == (7 * Len(x.ends) + 5 * x.s + 3 * x.p + 11 * At(x) + salt * salt * (x.p + Len(x.ends))) % 13
Pick == IF salt = 0 \/ Open = {} THEN Open
        ELSE {CHOOSE x \in Open : \A y \in Open : Prio(x) <= Prio(y)}
Quiet == \A x \in parts :
           /\ NextSym(x) \in DOMAIN P =>
                 <<NextSym(x), At(x)>> \in called /\ \A e \in Memo(NextSym(x), At(x)) : Extended(x, e) \in parts \cup alts
           /\ (NextSym(x) \notin DOMAIN P /\ At(x) < Len(w) /\ w[At(x) + 1] = NextSym(x)) =>
                 Extended(x, At(x) + 1) \in parts \cup alts

Accepts == Len(w) \in Memo(S, 0)
Exp == [ok |-> IF Accepts THEN 1 ELSE 0,
        best |-> IF Accepts /\ ~cyc THEN <<Best(P, T, w, S)>> ELSE <<>>]

Halt == /\ Quiet
        /\ st' = "halt"
        /\ UNCHANGED <<called, parts, alts>>
        /\ salt = 1 => PrintT("CASE " \o ToJson([g |-> Grams[gi], w |-> w, exp |-> Exp]))

Step == /\ st = "run"
        /\ UNCHANGED <<gi, w, salt, T, cyc>>
        /\ \/ /\ st' = "run"
              /\ \E x \in Pick :
                    IF salt = 0 THEN Predict(x) \/ Shift(x) \/ (\E e \in CompleteEnds(x) : Complete(x, e))
                    ELSE IF NextSym(x) \in DOMAIN P /\ <<NextSym(x), At(x)>> \notin called THEN Predict(x)
                    ELSE IF Shiftable(x) THEN Shift(x)
                    ELSE Complete(x, CHOOSE e \in CompleteEnds(x) : Extended(x, e) \notin parts \cup alts)
           \/ Halt
Next == Load \/ Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Sound == st = "new" \/ \A x \in alts :
           LET r == P[x.A][x.p]
               at(k) == IF k = 0 THEN x.s ELSE x.ends[k]
           IN /\ Len(x.ends) = Len(r)
              /\ \A k \in DOMAIN r : at(k) \in EndsSym(P, T, w, r[k], at(k-1))
              /\ At(x) \in T[x.s + 1][x.A]
Exact == st = "halt" => /\ salt # 0 => parts \cup alts = Whole(gi, w)
                        /\ \A m \in called : Memo(m[1], m[2]) = T[m[2] + 1][m[1]]
                        /\ Accepts <=> Derives(P, T, w, S)
(* the property's reading of "best" and the one used as oracle are the same *)
BestIsLeast == (st = "halt" /\ Accepts /\ ~cyc) =>
                 LET all == TreesOf(P, T, w, S, 0, Len(w))
                     b == Best(P, T, w, S)
                 IN \E x \in all : x[1] = b /\ \A y \in all : y = x \/ LexLess(x[2], y[2])
=============================================================================
