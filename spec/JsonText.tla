------------------------------ MODULE JsonText ------------------------------
(* The JSON dialect on bytes: tokens [t, v], and which sequences of tokens   *)
(* are a document.  Two texts are the same document iff both are documents   *)
(* with the same tokens.                                                     *)
EXTENDS Naturals, Integers, Sequences, TLC

Digit(b, p) == p <= Len(b) /\ b[p] \in 48..57
At(b, p, x) == p <= Len(b) /\ b[p] = x
RECURSIVE Digits(_, _)
Digits(b, p) == IF Digit(b, p) THEN Digits(b, p + 1) ELSE p
NumberEnd(b, p) == LET q == Digits(b, p) IN IF At(b, q, 46) /\ Digit(b, q + 1) THEN Digits(b, q + 1) ELSE q
(* the position after the string that starts at p (a quote), 0: unterminated *)
RECURSIVE StrEnd(_, _)
StrEnd(b, p) ==
  IF p > Len(b) THEN 0
  ELSE IF b[p] = 34 THEN p + 1
  ELSE IF b[p] = 92 THEN (IF p + 1 > Len(b) \/ At(b, p + 1, 10) THEN 0 ELSE StrEnd(b, p + 2))
  ELSE StrEnd(b, p + 1)
IsSpace(x) == x \in {9, 10, 12, 13, 32}
Word(b, p, w) == p + Len(w) - 1 <= Len(b) /\ SubSeq(b, p, p + Len(w) - 1) = w
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Null == <<110, 117, 108, 108>>
Punct(x) == CASE x = 44 -> "," [] x = 58 -> ":" [] x = 91 -> "[" [] x = 93 -> "]" [] x = 123 -> "{" [] x = 125 -> "}" [] OTHER -> "bad"
(* <<kind, end>> of the token at p *)
TokAt(b, p) ==
  IF NumberEnd(b, p) > p THEN <<"num", NumberEnd(b, p)>>
  ELSE IF b[p] = 34 THEN (IF StrEnd(b, p + 1) = 0 THEN <<"bad", p + 1>> ELSE <<"str", StrEnd(b, p + 1)>>)
  ELSE IF Word(b, p, True) THEN <<"lit", p + 4>>
  ELSE IF Word(b, p, False) THEN <<"lit", p + 5>>
  ELSE IF Word(b, p, Null) THEN <<"lit", p + 4>>
  ELSE <<Punct(b[p]), p + 1>>
RECURSIVE Toks(_, _, _)
Toks(b, p, acc) ==
  IF p > Len(b) THEN acc
  ELSE IF IsSpace(b[p]) THEN Toks(b, p + 1, acc)
  ELSE LET k == TokAt(b, p) IN Toks(b, k[2], Append(acc, [t |-> k[1], v |-> SubSeq(b, p, k[2] - 1)]))
Tokens(b) == TLCEval(Toks(b, 1, <<>>))

T(ts, p) == IF p <= Len(ts) THEN ts[p].t ELSE "end"
Ok(p) == [ok |-> TRUE, p |-> p]
Fail(p) == [ok |-> FALSE, p |-> p]
RECURSIVE PValue(_, _), PItems(_, _), PKeys(_, _)
PValue(ts, p) ==
  CASE T(ts, p) \in {"num", "str", "lit"} -> Ok(p + 1)
    [] T(ts, p) = "[" -> IF T(ts, p + 1) = "]" THEN Ok(p + 2) ELSE PItems(ts, p + 1)
    [] T(ts, p) = "{" -> IF T(ts, p + 1) = "}" THEN Ok(p + 2) ELSE PKeys(ts, p + 1)
    [] OTHER -> Fail(p)
PItems(ts, p) ==
  LET r == PValue(ts, p)
  IN IF ~r.ok THEN r
     ELSE IF T(ts, r.p) = "," THEN PItems(ts, r.p + 1)
     ELSE IF T(ts, r.p) = "]" THEN Ok(r.p + 1) ELSE Fail(r.p)
PKeys(ts, p) ==
  IF T(ts, p) # "str" THEN Fail(p)
  ELSE IF T(ts, p + 1) # ":" THEN Fail(p + 1)
  ELSE LET r == PValue(ts, p + 2)
       IN IF ~r.ok THEN r
          ELSE IF T(ts, r.p) = "," THEN PKeys(ts, r.p + 1)
          ELSE IF T(ts, r.p) = "}" THEN Ok(r.p + 1) ELSE Fail(r.p)
Doc(ts) == LET r == PValue(ts, 1) IN IF r.ok /\ r.p = Len(ts) + 1 THEN r ELSE Fail(r.p)
=============================================================================
