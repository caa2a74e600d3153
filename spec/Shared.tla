------------------------------- MODULE Shared -------------------------------
(* One value (a lexer, parser, grammar, reducer, runner, or the package) and *)
(* callers that use it at the same time. A call only reads the value, so     *)
(* whatever else goes on, it returns what it returns alone.                  *)
(* State: open[p] = the call caller p is in, or 0.                           *)
EXTENDS Naturals, Sequences, TLC
Idle(n) == [p \in 1..n |-> 0]
CanBegin(open, p) == open[p] = 0
Begin(open, p, c) == [open EXCEPT ![p] = c]
CanEnd(open, p, c, r, alone) == open[p] = c /\ r = alone[c]
End(open, p) == [open EXCEPT ![p] = 0]
=============================================================================
