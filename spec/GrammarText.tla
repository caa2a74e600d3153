---------------------------- MODULE GrammarText ----------------------------
(***************************************************************************)
(* What a grammar definition text means: a machine that consumes one line  *)
(* at a time, and the Add operation.  Symbols are byte sequences.          *)
(*   g   = [nts, ps] as in Grammars.tla                                    *)
(*   cur = the non-terminal continuation lines belong to, <<>> before any  *)
(***************************************************************************)
EXTENDS Bytes

EmptyG == [nts |-> <<>>, ps |-> <<>>]
StartName == <<83, 84, 65, 82, 84>>            \* START
Arrow == <<45, 62>>                            \* ->

Has(g, A) == \E k \in DOMAIN g.nts : g.nts[k] = A
At(g, A) == CHOOSE k \in DOMAIN g.nts : g.nts[k] = A
AddProd(g, A, r) ==
  IF Has(g, A) THEN [g EXCEPT !.ps[At(g, A)] = Append(@, r)]
  ELSE [nts |-> Append(g.nts, A), ps |-> Append(g.ps, <<r>>)]

(* state of reading: [g, cur, err] *)
Fresh == [g |-> EmptyG, cur |-> <<>>, err |-> FALSE]
ReadLine(s, line) ==
  LET t == Trim(line)
      p == Split(t, Arrow)
      lhs == IF Len(p) = 2 THEN Trim(p[1]) ELSE <<>>
      cur == IF lhs # <<>> THEN lhs ELSE IF s.cur # <<>> THEN s.cur ELSE StartName
  IN IF s.err \/ t = <<>> THEN s
     ELSE IF Len(p) > 2 THEN [s EXCEPT !.err = TRUE]
     ELSE [s EXCEPT !.cur = cur, !.g = AddProd(s.g, cur, Words(p[Len(p)]))]
RECURSIVE ReadLines(_, _, _)
ReadLines(s, lines, k) == IF k > Len(lines) THEN s ELSE ReadLines(TLCEval(ReadLine(s, lines[k])), lines, k + 1)
ReadText(text) == ReadLines(Fresh, Split(text, <<10>>), 1)

ProdsOf(g, A) == IF Has(g, A) THEN g.ps[At(g, A)] ELSE <<>>
=============================================================================
