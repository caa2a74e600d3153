-------------------------------- MODULE Pump --------------------------------
(* Families of inputs of any size n, with what they give in closed form, so  *)
(* that the real code can be held to the specification at sizes no table of  *)
(* it reaches.  MC_Pump checks the closed forms against the specification    *)
(* itself at small sizes.                                                    *)
EXTENDS Naturals, Integers, Sequences, TLC

(* trees in preorder as three sequences: kinds, numbers of children, lines   *)
Flat(m, k(_), n(_), l(_)) ==
  [k |-> [i \in 1..m |-> k(i)], n |-> [i \in 1..m |-> n(i)], l |-> [i \in 1..m |-> l(i)]]

(* ------------------------------- parsing --------------------------------- *)
(* L: S -> S a | a   R: S -> a S | a   N: S -> a S b | a b   E: S -> a S |   *)
(* A: S -> t1 | ... | tn   V: S -> a ... a   W: S -> A ... A, A -> a | a a   *)
(* D: S -> O ... O, O -> a |   C: S -> A1, A1 -> A2, ..., An -> a            *)
Min(x, y) == IF x < y THEN x ELSE y
Times(n, x) == [i \in 1..n |-> x]
Name(c, i) == c \o ToString(i)
PGrammar(f, n) ==
  CASE f = "W" -> [nts |-> <<"S", "A">>, ps |-> <<<<Times(n, "A")>>, <<<<"a">>, <<"a", "a">>>>>>]
    [] f = "D" -> [nts |-> <<"S", "O">>, ps |-> <<<<Times(n, "O")>>, <<<<"a">>, <<>>>>>>]
    [] f = "C" -> [nts |-> <<"S">> \o [i \in 1..n |-> Name("A", i)],
                   ps |-> <<<<<<"A1">>>>>> \o [i \in 1..n |-> <<<<IF i < n THEN Name("A", i + 1) ELSE "a">>>>]]
    [] OTHER ->
         [nts |-> <<"S">>,
          ps |-> <<CASE f = "L" -> <<<<"S", "a">>, <<"a">>>>
                     [] f = "R" -> <<<<"a", "S">>, <<"a">>>>
                     [] f = "N" -> <<<<"a", "S", "b">>, <<"a", "b">>>>
                     [] f = "E" -> <<<<"a", "S">>, <<>>>>
                     [] f = "A" -> [i \in 1..n |-> <<Name("t", i)>>]
                     [] f = "V" -> <<Times(n, "a")>> >>]
(* bad = 1: an input just outside of the language *)
PLen(f, n, bad) == CASE f = "N" -> 2 * n + bad
                     [] f = "W" -> IF bad = 1 THEN 2 * n + 1 ELSE n + Min(3, n)
                     [] f = "D" -> IF bad = 1 THEN n + 1 ELSE n \div 2
                     [] f = "C" -> 1 + bad
                     [] f = "A" -> 1
                     [] OTHER -> n + bad
PInput(f, n, bad) == [i \in 1..PLen(f, n, bad) |->
   CASE f = "N" -> (IF i <= n THEN "a" ELSE "b")
     [] f = "A" -> Name("t", n + bad)
     [] f \in {"V", "W", "D", "C"} -> "a"
     [] OTHER -> IF bad = 1 /\ i = n + 1 THEN "b" ELSE "a"]
PTree(f, n) ==
  CASE f = "L" -> Flat(2 * n, LAMBDA i : IF i <= n THEN "S" ELSE "a",
                              LAMBDA i : IF i < n THEN 2 ELSE IF i = n THEN 1 ELSE 0,
                              LAMBDA i : IF i <= n THEN -1 ELSE i - n)
    [] f = "R" -> Flat(2 * n, LAMBDA i : IF i % 2 = 1 THEN "S" ELSE "a",
                              LAMBDA i : IF i % 2 = 0 THEN 0 ELSE IF i = 2 * n - 1 THEN 1 ELSE 2,
                              LAMBDA i : IF i % 2 = 1 THEN -1 ELSE i \div 2)
    [] f = "E" -> Flat(2 * n + 1, LAMBDA i : IF i % 2 = 1 THEN "S" ELSE "a",
                              LAMBDA i : IF i % 2 = 0 \/ i = 2 * n + 1 THEN 0 ELSE 2,
                              LAMBDA i : IF i % 2 = 1 THEN -1 ELSE i \div 2)
    [] f = "N" -> Flat(3 * n, LAMBDA i : IF i > 2 * n THEN "b" ELSE IF i % 2 = 1 THEN "S" ELSE "a",
                              LAMBDA i : IF i > 2 * n \/ i % 2 = 0 THEN 0 ELSE IF i = 2 * n - 1 THEN 2 ELSE 3,
                              LAMBDA i : IF i > 2 * n THEN i - n ELSE IF i % 2 = 1 THEN -1 ELSE i \div 2)
    [] f = "A" -> Flat(2, LAMBDA i : IF i = 1 THEN "S" ELSE Name("t", n), LAMBDA i : 2 - i, LAMBDA i : IF i = 1 THEN -1 ELSE 1)
    [] f = "V" -> Flat(n + 1, LAMBDA i : IF i = 1 THEN "S" ELSE "a", LAMBDA i : IF i = 1 THEN n ELSE 0,
                              LAMBDA i : IF i = 1 THEN -1 ELSE i - 1)
    [] f = "W" -> LET d == Min(3, n)          \* the last d of them read two
                      m == 1 + 2 * (n - d)    \* where those start
                      top(i) == IF i <= m THEN i % 2 = 0 ELSE (i - m) % 3 = 1
                  IN Flat(m + 3 * d, LAMBDA i : IF i = 1 THEN "S" ELSE IF top(i) THEN "A" ELSE "a",
                              LAMBDA i : IF i = 1 THEN n ELSE IF ~top(i) THEN 0 ELSE IF i <= m THEN 1 ELSE 2,
                              LAMBDA i : IF i = 1 \/ top(i) THEN -1 ELSE IF i <= m THEN (i - 1) \div 2
                                         ELSE n - d + 2 * ((i - m - 1) \div 3) + ((i - m - 1) % 3))
    [] f = "D" -> LET h == n \div 2
                      top(i) == i > 2 * h + 1 \/ i % 2 = 0
                  IN Flat(1 + 2 * h + (n - h), LAMBDA i : IF i = 1 THEN "S" ELSE IF top(i) THEN "O" ELSE "a",
                              LAMBDA i : IF i = 1 THEN n ELSE IF top(i) /\ i <= 2 * h + 1 THEN 1 ELSE 0,
                              LAMBDA i : IF i = 1 \/ top(i) THEN -1 ELSE (i - 1) \div 2)
    [] f = "C" -> Flat(n + 2, LAMBDA i : IF i = 1 THEN "S" ELSE IF i = n + 2 THEN "a" ELSE Name("A", i - 1),
                              LAMBDA i : IF i = n + 2 THEN 0 ELSE 1, LAMBDA i : IF i = n + 2 THEN 1 ELSE -1)
(* repetition: S -> a* reduced is S over the n lexemes; S -> ( a b )* c? likewise *)
RTree(f, n) ==
  CASE f = "star" -> Flat(n + 1, LAMBDA i : IF i = 1 THEN "S" ELSE "a", LAMBDA i : IF i = 1 THEN n ELSE 0,
                                 LAMBDA i : IF i = 1 THEN -1 ELSE i - 1)
    [] f = "group" -> Flat(2 * n + 2, LAMBDA i : IF i = 1 THEN "S" ELSE IF i = 2 * n + 2 THEN "c" ELSE IF i % 2 = 0 THEN "a" ELSE "b",
                                 LAMBDA i : IF i = 1 THEN 2 * n + 1 ELSE 0, LAMBDA i : IF i = 1 THEN -1 ELSE i - 1)
RInput(f, n) == IF f = "star" THEN [i \in 1..n |-> "a"]
                ELSE [i \in 1..(2 * n + 1) |-> IF i = 2 * n + 1 THEN "c" ELSE IF i % 2 = 1 THEN "a" ELSE "b"]

(* --------------------------------- trees --------------------------------- *)
Abc(i) == IF i % 3 = 1 THEN "a" ELSE IF i % 3 = 2 THEN "b" ELSE "c"
(* wide: r over n children, of kinds a b c in turn, the i-th on line i *)
Wide(n) == Flat(n + 1, LAMBDA i : IF i = 1 THEN "r" ELSE Abc(i - 1), LAMBDA i : IF i = 1 THEN n ELSE 0, LAMBDA i : i - 1)
(* pairs: r over n nodes a, each over one b *)
Pairs(n) == Flat(2 * n + 1, LAMBDA i : IF i = 1 THEN "r" ELSE IF i % 2 = 0 THEN "a" ELSE "b",
                            LAMBDA i : IF i = 1 THEN n ELSE IF i % 2 = 0 THEN 1 ELSE 0, LAMBDA i : i - 1)
(* deep: a over b over a ... n nodes, then a leaf z *)
Deep(n) == Flat(n + 1, LAMBDA i : IF i > n THEN "z" ELSE IF i % 2 = 1 THEN "a" ELSE "b",
                       LAMBDA i : IF i > n THEN 0 ELSE 1, LAMBDA i : i)
TreeIn(f, n) == CASE f = "wide" -> Wide(n) [] f = "pairs" -> Pairs(n) [] f = "deep" -> Deep(n)
(* without every third child, starting with the second *)
NoB(n) == LET m == n - (n + 1) \div 3
              orig(j) == 3 * ((j - 1) \div 2) + (IF j % 2 = 1 THEN 1 ELSE 3)
          IN Flat(m + 1, LAMBDA i : IF i = 1 THEN "r" ELSE Abc(orig(i - 1)), LAMBDA i : IF i = 1 THEN m ELSE 0,
                         LAMBDA i : IF i = 1 THEN 0 ELSE orig(i - 1))
Unplace(t) == [t EXCEPT !.l = [i \in DOMAIN @ |-> -1]]
TreeOut(f, do, n) ==
  CASE do = "print" -> Unplace(TreeIn(f, n))
    [] do = "clone" -> TreeIn(f, n)
    [] f = "wide" /\ do \in {"removeall", "removechildren", "reduce"} -> NoB(n)
    [] f = "pairs" /\ do = "grand" -> Flat(n + 1, LAMBDA i : IF i = 1 THEN "r" ELSE "b", LAMBDA i : IF i = 1 THEN n ELSE 0,
                                                  LAMBDA i : IF i = 1 THEN 0 ELSE 2 * (i - 1))
    [] f = "pairs" /\ do = "reduce" -> Flat(n + 1, LAMBDA i : IF i = 1 THEN "r" ELSE "b", LAMBDA i : IF i = 1 THEN n ELSE 0,
                                                  LAMBDA i : IF i = 1 THEN 0 ELSE 2 * (i - 1))
    [] f = "deep" /\ do = "reduce" -> Flat(n \div 2 + 1, LAMBDA i : IF i > n \div 2 THEN "z" ELSE "b", LAMBDA i : IF i > n \div 2 THEN 0 ELSE 1,
                                                  LAMBDA i : IF i > n \div 2 THEN n + 1 ELSE 2 * i)

(* -------------------------- symbols and grammars ------------------------- *)
(* n symbols put into a set one after the other, and twice *)
Iota(n) == [i \in 1..n |-> i]
SetOut(n) == [idx |-> [i \in 1..n |-> i - 1], again |-> [i \in 1..n |-> i - 1], byidx |-> Iota(n), size |-> n,
              prod |-> [i \in 1..n |-> n + 1 - i], cast |-> [i \in 1..n |-> n + 1 - i], castidx |-> [i \in 1..n |-> i - 1], cmp |-> 0]
(* loop, end: A1 -> A2 y | x, ..., An -> last y | x, where last is A1 or x.  *)
(* The others: Ai -> A(i+1), save for A1 and An (n > 1):                     *)
(*   cycle   An -> A1 x |        hidden  A1 -> A2 A1 | x   An ->             *)
(*   open    A1 -> A2 x | y  An ->       solid   A1 -> A2 A1 | y   An -> x   *)
GGrammar(n, end) ==
  LET A(i) == Name("A", i)
  IN [nts |-> [i \in 1..n |-> A(i)],
      ps |-> [i \in 1..n |->
        CASE end \in {"loop", "end"} -> <<<<IF i < n THEN A(i + 1) ELSE IF end = "loop" THEN A(1) ELSE "x", "y">>, <<"x">>>>
          [] end = "cycle" /\ i = n -> <<<<A(1), "x">>, <<>>>>
          [] end = "hidden" /\ i = 1 -> <<<<A(2), A(1)>>, <<"x">>>>
          [] end = "open" /\ i = 1 -> <<<<A(2), "x">>, <<"y">>>>
          [] end = "solid" /\ i = 1 -> <<<<A(2), A(1)>>, <<"y">>>>
          [] end \in {"hidden", "open"} /\ i = n -> <<<<>>>>
          [] end = "solid" /\ i = n -> <<<<"x">>>>
          [] OTHER -> <<<<A(i + 1)>>>>]]
GramEnds == {"loop", "end", "cycle", "hidden", "open", "solid"}
(* back: reads back as printed; first: x is a first; other: y or nothing is  *)
GramOut(n, end) ==
  LET one(i) == IF i = 1 THEN 1 ELSE 0
      lr == IF end \in {"loop", "cycle", "hidden"} THEN 1 ELSE 0
  IN [nts |-> Iota(n),
      prods |-> [i \in 1..n |-> IF end \in {"loop", "end"} \/ (end = "cycle" /\ i = n) \/ (end \notin {"cycle"} /\ i = 1) THEN 2 ELSE 1],
      heads |-> [i \in 1..n |-> IF i < n THEN i + 1 ELSE IF end \in {"loop", "cycle"} THEN 1 ELSE 0],
      back |-> 1, lr |-> lr, td |-> lr,
      first |-> [i \in 1..n |-> IF end \in {"hidden", "open"} THEN one(i) ELSE 1],
      other |-> [i \in 1..n |-> CASE end \in {"loop", "end"} -> 0 [] end = "solid" -> one(i) [] OTHER -> 1],
      nonterm |-> [i \in 1..n |-> 1]]

(* ------------------- texts with long lines or many of them --------------- *)
TextId(f) == CASE f = "tree" -> "C14" [] f \in {"prod", "name", "many"} -> "C07" [] f = "rg" -> "C08" [] OTHER -> "C13"
(* a rule for x^n alone: on x^n, on x^(n+1) and on x^(n-1) (kind lengths: k, Error) *)
OneRule(n) == <<1, n, 1, n, 5, 1, 5, n - 1>>
TextOut(f, n) ==
  CASE f = "tree" -> <<n, n, 1, n, n, 1>>
    [] f = "prod" -> <<1, 1, n, n, 1, 1, n, n>>
    [] f = "name" -> <<1, 1, 1, n, n, 1, 1, 1, 1, 1, 1, n, n, 1, 1, 1>>
    [] f = "many" -> <<1, n>> \o [i \in 1..(2 * n) |-> 1] \o <<1, n>> \o [i \in 1..(2 * n) |-> 1]
    [] f = "rg" -> <<1, n>>
    [] f \in {"simple", "stack"} -> OneRule(n)
    [] f \in {"simpleline", "stackline"} -> <<1, 3, 1, -1, 1, 1>>     \* x+ in so many letters
    [] f \in {"rules", "subs"} -> Iota(n)

(* ------------------------------- examples -------------------------------- *)
ProgId(f) == CASE f \in {"paren", "minus"} -> "C21" [] f \in {"items", "nested", "keys"} -> "C22" [] f = "add" -> "C23"
Key == <<34, 107, 34, 58, 49, 44>>                        \* "k":1,
ProgOut(f, n) ==
  CASE f = "paren" -> <<7>>
    [] f = "minus" -> <<1 - n>>
    [] f = "add" -> <<n + 1>>
    [] f = "items" -> [i \in 1..(2 * n + 3) |-> IF i = 1 THEN 91 ELSE IF i = 2 * n + 3 THEN 93 ELSE IF i % 2 = 0 THEN 49 ELSE 44]
    [] f = "nested" -> [i \in 1..(2 * n) |-> IF i <= n THEN 91 ELSE 93]
    [] f = "keys" -> [i \in 1..(6 * n + 7) |-> IF i = 1 THEN 123 ELSE IF i = 6 * n + 7 THEN 125 ELSE Key[((i - 2) % 6) + 1]]
=============================================================================
