------------------------------- MODULE Bytes -------------------------------
(* Texts as sequences of byte values. *)
EXTENDS Naturals, Integers, Sequences, TLC

IsWs(b) == b \in {9, 10, 11, 12, 13, 32}

RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ IsWs(s[1]) THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ IsWs(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))

(* first index >= k at which sub occurs in s, 0 if none *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, sub, k) ==
  IF k + Len(sub) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, k, k + Len(sub) - 1) = sub THEN k ELSE FindFrom(s, sub, k + 1)

RECURSIVE Split(_, _)
Split(s, sep) ==
  LET k == FindFrom(s, sep, 1)
  IN IF k = 0 THEN <<s>>
     ELSE <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + Len(sep), Len(s)), sep)

RECURSIVE MapSeq(_, _)
MapSeq(f(_), s) == IF s = <<>> THEN <<>> ELSE <<f(s[1])>> \o MapSeq(f, Tail(s))
NonEmpty(s) == SelectSeq(s, LAMBDA x : x # <<>>)
Words(s) == NonEmpty(MapSeq(Trim, Split(s, <<32>>)))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
=============================================================================
