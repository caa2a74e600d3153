----------------------------- MODULE MC_LexDef ------------------------------
(* All stack lexer definitions of N sub-lexers with at most K items out of a *)
(* menu of good and bad items, each with a verdict and, if it can be         *)
(* honoured, the lexemes of a fixed input.                                   *)
EXTENDS Lex, Json, IOUtils
N == atoi(IOEnv.NSUBS)
K == atoi(IOEnv.NITEMS)
Ch(x) == [t |-> "c", s |-> <<x>>]
Rule(kind, re, push, pop, grps) ==
  [t |-> "rule", kind |-> kind, re |-> re, discard |-> 0, push |-> push, pop |-> pop, grps |-> grps]
Grp(g) == <<[g |-> g, lit |-> <<>>]>>
A == Ch(97)
Menu == {Rule("ka", A, 0, 1, <<>>), Rule("ka", Ch(98), 0, 0, <<>>),
         Rule("kb", [t |-> "cat", a |-> <<A, A>>], 0, 0, <<>>),
         Rule("kc", [t |-> "bad"], 0, 0, <<>>), Rule("kd", A, -1, 0, <<>>),
         Rule("ke", [t |-> "g", n |-> 1, r |-> A], 0, 0, Grp(1)),
         Rule("kf", [t |-> "g", n |-> 1, r |-> A], 0, 0, Grp(2))}
        \cup {Rule("kp", Ch(98), k, 0, <<>>) : k \in 1..N}
        \cup {[t |-> "inh", sub |-> k] : k \in 1..N}
Input == <<98, 97, 97, 98, 97, 99>>
VARIABLES subs, at, st
vars == <<subs, at, st>>
Def == [kind |-> "stack", dup |-> 0, subs |-> subs]
Init == subs = [i \in 1..N |-> [items |-> <<>>]] /\ at = 1 /\ st = "build"
AddItem == /\ st = "build" /\ at <= N /\ Len(subs[at].items) < K
           /\ \E it \in Menu : subs' = [subs EXCEPT ![at].items = Append(@, it)]
           /\ UNCHANGED <<at, st>>
NextSub == st = "build" /\ at <= N /\ at' = at + 1 /\ UNCHANGED <<subs, st>>
Emit == /\ st = "build" /\ at = N + 1 /\ st' = "halt" /\ UNCHANGED <<subs, at>>
        /\ PrintT("CASE " \o ToJson([def |-> Def, in |-> Input,
             exp |-> IF WellFormed(Def) THEN [ok |-> 1, lxs |-> LexAll(Lexer(Def), Input)]
                     ELSE [ok |-> 0, lxs |-> <<>>]]))
Next == AddItem \/ NextSub \/ Emit
Spec == Init /\ [][Next]_vars
(* a definition that is accepted makes a lexer with every reference resolved and one rule per kind *)
Sound == st = "halt" /\ WellFormed(Def) =>
  \A i \in 1..N : LET rs == Effective(Def, i)
                  IN /\ \A j, k \in DOMAIN rs : j # k => rs[j].kind # rs[k].kind
                     /\ \A j \in DOMAIN rs : rs[j].push \in 0..N /\ rs[j].re.t # "bad"
                     /\ \A k \in DOMAIN subs[i].items : subs[i].items[k].t = "inh" =>
                          \A r \in {Effective(Def, subs[i].items[k].sub)[m] : m \in DOMAIN Effective(Def, subs[i].items[k].sub)} :
                             \E j \in DOMAIN rs : rs[j].kind = r.kind
=============================================================================
