------------------------------- MODULE Regex -------------------------------
(* Matching of a regular expression at a position, with the preference order *)
(* of the leftmost-first ("Perl") rule: M gives the ends of all matches that *)
(* start at position p, most preferred first, with the spans of the groups.  *)
(*   [t|->"c", s]                 one byte out of s                          *)
(*   [t|->"cat", a] [t|->"alt", a]   sequence, ordered alternatives          *)
(*   [t|->"q", r, min, max, lazy] repetition, max = 0 is unbounded           *)
(*   [t|->"g", n, r]              capturing group n                          *)
(*   [t|->"n", s]                 one character that is not a byte out of s; *)
(*                                bytes that are not UTF-8 count one by one  *)
(*   [t|->"z", k]                 nothing, but only before the end ("end"),  *)
(*                                before the end of a line ("eol"), at ("wb")*)
(*                                or not at ("nwb") an edge of a word; never *)
(*                                the first thing in a match                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

(* what follows depends on the end only: the first way to reach it wins *)
RECURSIVE DedupFrom(_, _, _, _)
DedupFrom(xs, i, seen, acc) ==
  IF i > Len(xs) THEN acc
  ELSE IF xs[i].e \in seen THEN DedupFrom(xs, i + 1, seen, acc)
  ELSE DedupFrom(xs, i + 1, TLCEval(seen \cup {xs[i].e}), TLCEval(Append(acc, xs[i])))
Dedup(xs) == IF Len(xs) <= 1 THEN xs ELSE LET ys == TLCEval(xs) IN DedupFrom(ys, 1, {}, <<>>)
(* how many bytes from p on are in s, at most max of them if max > 0 *)
RECURSIVE RunLen(_, _, _, _, _)
RunLen(s, b, p, n, max) == IF p <= Len(b) /\ (max = 0 \/ n < max) /\ (\E i \in DOMAIN s : s[i] = b[p]) THEN RunLen(s, b, TLCEval(p + 1), TLCEval(n + 1), max) ELSE n
(* repetition of single bytes: every count from min on, longest (or, lazy, shortest) first *)
MRun(r, b, p, c) ==
  LET n == RunLen(r.r.s, b, p, 0, r.max)
  IN IF n < r.min THEN <<>>
     ELSE [k \in 1..(n - r.min + 1) |-> [e |-> IF r.lazy = 1 THEN p + r.min + k - 1 ELSE p + n - k + 1, c |-> c]]

(* length of the character at p: the only letters beyond ASCII used have two bytes *)
CharLen(b, p) == IF b[p] \in 194..223 /\ p < Len(b) /\ b[p + 1] \in 128..191 THEN 2 ELSE 1
WordByte(b, p) == p \in DOMAIN b /\ b[p] \in (48..57) \cup (65..90) \cup (97..122) \cup {95}
Holds(k, b, p) ==
  CASE k = "end" -> p > Len(b)
    [] k = "eol" -> p > Len(b) \/ b[p] = 10
    [] k = "wb" -> WordByte(b, p - 1) # WordByte(b, p)
    [] k = "nwb" -> WordByte(b, p - 1) = WordByte(b, p)

RECURSIVE M(_, _, _, _), MSeq(_, _, _, _), MAlt(_, _, _, _, _), MRep(_, _, _, _, _, _), MEach(_, _, _), MQEach(_, _, _, _, _)
M(r, b, p, c) ==
  CASE r.t = "c" -> IF p <= Len(b) /\ \E i \in DOMAIN r.s : r.s[i] = b[p]
                    THEN <<[e |-> p + 1, c |-> c]>> ELSE <<>>
    [] r.t = "n" -> IF p <= Len(b) /\ \A i \in DOMAIN r.s : r.s[i] # b[p]
                    THEN <<[e |-> p + CharLen(b, p), c |-> c]>> ELSE <<>>
    [] r.t = "z" -> IF Holds(r.k, b, p) THEN <<[e |-> p, c |-> c]>> ELSE <<>>
    [] r.t = "cat" -> MSeq(<<[e |-> p, c |-> c]>>, r.a, 1, b)
    [] r.t = "alt" -> Dedup(MAlt(r.a, 1, b, p, c))
    [] r.t = "q" /\ r.r.t = "c" -> MRun(r, b, p, c)
    [] r.t = "q" -> Dedup(MRep(r, 0, b, p, c, [out |-> <<>>, seen |-> {}]).out)
    [] r.t = "g" -> LET xs == TLCEval(M(r.r, b, p, c))
                    IN TLCEval([i \in DOMAIN xs |-> [e |-> xs[i].e, c |-> [xs[i].c EXCEPT ![r.n] = <<p, xs[i].e>>]]])
(* element by element: all ways to get past the first k elements, in order of preference *)
MSeq(xs, a, k, b) ==
  IF k > Len(a) \/ xs = <<>> THEN xs
  ELSE MSeq(TLCEval(Dedup(MEach(xs, a[k], b))), a, k + 1, b)
MEach(xs, r, b) ==
  IF xs = <<>> THEN <<>> ELSE TLCEval(M(r, b, xs[1].e, xs[1].c)) \o MEach(TLCEval(Tail(xs)), r, b)
MAlt(a, k, b, p, c) == IF k > Len(a) THEN <<>> ELSE M(a[k], b, p, c) \o MAlt(a, k + 1, b, p, c)
(* depth first; what is reachable from a position seen before has been listed already *)
RepKey(r, n, p) == <<p, IF r.max = 0 /\ n > r.min THEN r.min ELSE n>>
MRep(r, n, b, p, c, acc) ==
  IF RepKey(r, n, p) \in acc.seen THEN acc
  ELSE LET a0 == [acc EXCEPT !.seen = @ \cup {RepKey(r, n, p)}]
           here(x) == IF n >= r.min THEN [x EXCEPT !.out = Append(@, [e |-> p, c |-> c])] ELSE x
           more(x) == IF r.max = 0 \/ n < r.max
                      THEN MQEach(SelectSeq(M(r.r, b, p, c), LAMBDA y : y.e > p), r, n + 1, b, x) ELSE x
       IN IF r.lazy = 1 THEN TLCEval(more(TLCEval(here(a0)))) ELSE TLCEval(here(TLCEval(more(a0))))
MQEach(xs, r, n, b, acc) ==
  IF xs = <<>> THEN acc ELSE MQEach(Tail(xs), r, n, b, TLCEval(MRep(r, n, b, xs[1].e, xs[1].c, acc)))

RECURSIVE NGroups(_), NGroupsAll(_)
NGroups(r) ==
  CASE r.t \in {"c", "n", "z", "bad"} -> 0
    [] r.t \in {"cat", "alt"} -> NGroupsAll(r.a)
    [] r.t = "q" -> NGroups(r.r)
    [] r.t = "g" -> 1 + NGroups(r.r)
NGroupsAll(a) == IF a = <<>> THEN 0 ELSE NGroups(a[1]) + NGroupsAll(Tail(a))

(* the match at p: <<>> or <<[e, c]>> *)
MatchAt(r, b, p) ==
  LET xs == M(r, b, p, [k \in 1..NGroups(r) |-> <<>>])
  IN IF xs = <<>> THEN <<>> ELSE <<xs[1]>>
=============================================================================
