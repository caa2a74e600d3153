---------------------------- MODULE MC_JsonText -----------------------------
(* Emits for every sequence of at most MAXTOK tokens with a viable prefix    *)
(* whether it is a document.                                                 *)
EXTENDS JsonText, Json, IOUtils
MaxTok == atoi(IOEnv.MAXTOK)
Pieces == {<<44>>, <<58>>, <<91>>, <<93>>, <<123>>, <<125>>, <<49>>, True, <<34, 97, 34>>}
VARIABLES ps, st
vars == <<ps, st>>
RECURSIVE Join(_)
Join(xs) == IF xs = <<>> THEN <<>> ELSE xs[1] \o <<32>> \o Join(Tail(xs))
Ts == Tokens(Join(ps))
D == Doc(Ts)
Viable == ~D.ok /\ D.p > Len(Ts)
Init == ps = <<>> /\ st = "type"
Type == st = "type" /\ Len(ps) < MaxTok /\ Viable /\ (\E x \in Pieces : ps' = Append(ps, x)) /\ UNCHANGED st
Emit == /\ st = "type" /\ st' = "halt" /\ UNCHANGED ps
        /\ PrintT("CASE " \o ToJson([ps |-> ps, exp |-> IF D.ok THEN 1 ELSE 0]))
Next == Type \/ Emit
Spec == Init /\ [][Next]_vars
(* brackets of a document match *)
Count(t) == Len(SelectSeq(Ts, LAMBDA x : x.t = t))
Balanced == D.ok => Count("[") = Count("]") /\ Count("{") = Count("}") /\ Count(":") <= Count("str")
OneTokenEach == Len(Ts) = Len(ps)
=============================================================================
