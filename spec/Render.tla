------------------------------- MODULE Render -------------------------------
(* The helpers around lexemes, constructors and productions: how lexemes are *)
(* written for people, which of them are errors, what the Must forms do and  *)
(* what an iterator visits. Texts are sequences of byte values. A lexeme is  *)
(* [k, v, l, c, err].                                                        *)
EXTENDS Naturals, Integers, Sequences, TLC

(* ------------------------------ characters ------------------------------ *)
Digit(d) == 48 + d
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n)
          ELSE IF n < 10 THEN <<Digit(n)>> ELSE Append(Dec(n \div 10), Digit(n % 10))
Escape(b) ==
  CASE b = 34 -> <<92, 34>>
    [] b = 92 -> <<92, 92>>
    [] b = 7  -> <<92, 97>>
    [] b = 8  -> <<92, 98>>
    [] b = 12 -> <<92, 102>>
    [] b = 10 -> <<92, 110>>
    [] b = 13 -> <<92, 114>>
    [] b = 9  -> <<92, 116>>
    [] b = 11 -> <<92, 118>>
    [] b \in (0..31) \ (7..13) \/ b = 127 -> <<92, 120, Hex(b \div 16), Hex(b % 16)>>
    [] OTHER -> <<b>>
RECURSIVE Escapes(_)
Escapes(s) == IF s = <<>> THEN <<>> ELSE Escape(s[1]) \o Escapes(Tail(s))
Quote(s) == <<34>> \o Escapes(s) \o <<34>>

(* reading a quoted text back: what Quote means *)
RECURSIVE Unquoted(_)
HexVal(b) == IF b <= 57 THEN b - 48 ELSE b - 87
Unquoted(s) ==      \* s: the inside of the quotes
  IF s = <<>> THEN <<>>
  ELSE IF s[1] # 92 THEN <<s[1]>> \o Unquoted(Tail(s))
  ELSE IF s[2] = 120 THEN <<16 * HexVal(s[3]) + HexVal(s[4])>> \o Unquoted(SubSeq(s, 5, Len(s)))
  ELSE <<CASE s[2] = 97 -> 7 [] s[2] = 98 -> 8 [] s[2] = 102 -> 12 [] s[2] = 110 -> 10
           [] s[2] = 114 -> 13 [] s[2] = 116 -> 9 [] s[2] = 118 -> 11 [] OTHER -> s[2]>> \o Unquoted(SubSeq(s, 3, Len(s)))

(* -------------------------------- lexemes ------------------------------- *)
At(x) == <<32, 40>> \o Dec(x.l) \o <<44, 32>> \o Dec(x.c) \o <<41>>          \* " (l, c)"
Brief(x) == IF x.v = <<>> THEN x.k ELSE x.k \o <<58, 32>> \o x.v
Full(x) == x.k \o <<58, 32>> \o Quote(x.v) \o (IF x.l > 0 \/ x.c > 0 THEN At(x) ELSE <<>>)
LexemeBrace == <<76, 101, 120, 101, 109, 101, 123>>
Own(x) == LexemeBrace \o x.k \o (IF x.v = <<>> THEN <<>> ELSE <<58>> \o Quote(x.v))
          \o (IF x.l # -1 THEN At(x) ELSE <<>>) \o <<125>>
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
LexemeString(ls) ==
  IF ls = <<>> THEN <<>>
  ELSE IF Len(ls) = 1 THEN Brief(ls[1])
  ELSE <<91>> \o Join([i \in DOMAIN ls |-> Brief(ls[i])], <<44, 32>>) \o <<93>>
LexemeList(ls) == Join([i \in DOMAIN ls |-> Full(ls[i])], <<10>>)
RECURSIVE ErrsFrom(_, _)
ErrsFrom(ls, i) == IF i > Len(ls) THEN <<>> ELSE (IF ls[i].err = 1 THEN <<i>> ELSE <<>>) \o ErrsFrom(ls, i + 1)
LexErrors(ls) == ErrsFrom(ls, 1)

(* the errors of a lexer whose rules take only the byte x and white space (dropped): every other run of bytes is one *)
LexErrorText == <<76, 101, 120, 32, 69, 114, 114, 111, 114, 32>>             \* "Lex Error "
Message(x) == LexErrorText \o Dec(x.l) \o <<58>> \o Dec(x.c) \o <<41, 32>> \o x.v
Known(b) == b \in {120, 32, 10}
RECURSIVE RunsFrom(_, _, _, _, _)
RunsFrom(b, i, l, c, open) ==         \* open: the run being read, or <<>>
  IF i > Len(b) THEN open
  ELSE IF Known(b[i])
  THEN open \o RunsFrom(b, i + 1, IF b[i] = 10 THEN l + 1 ELSE l, IF b[i] = 10 THEN 1 ELSE c + 1, <<>>)
  ELSE RunsFrom(b, i + 1, l, c + 1, IF open = <<>> THEN <<[v |-> <<b[i]>>, l |-> l, c |-> c]>> ELSE <<[open[1] EXCEPT !.v = Append(@, b[i])]>>)
ErrorRuns(b, line0) == RunsFrom(b, 1, line0, 1, <<>>)
(* characters of a text in UTF-8 *)
Characters(s) == Len(SelectSeq(s, LAMBDA b : b \notin 128..191))

(* the same by a machine that walks over the lexemes once *)
Empty == [i |-> 0, s |-> <<>>, n |-> <<>>, e |-> <<>>]
Walk(w, x) == [i |-> w.i + 1,
               s |-> w.s \o (IF w.i = 0 THEN <<>> ELSE <<44, 32>>) \o Brief(x),
               n |-> w.n \o (IF w.i = 0 THEN <<>> ELSE <<10>>) \o Full(x),
               e |-> IF x.err = 1 THEN Append(w.e, w.i + 1) ELSE w.e]

(* ------------------------------ Must forms ------------------------------ *)
(* [obj, err] given to it; what happens *)
Must(obj, err) == IF err = 1 THEN [panics |-> 1, obj |-> 0] ELSE [panics |-> 0, obj |-> obj]

(* ------------------------------- iterators ------------------------------ *)
(* what is visited: pairs of index and symbol, then nothing for ever *)
Visits(p) == [i \in DOMAIN p |-> [i |-> i - 1, s |-> p[i]]]
=============================================================================
