------------------------------ MODULE FlagsModel -----------------------------
(* Expressions over all pairs of flag sets, and sequences of assigning         *)
(* operations on two variables (the operand may be the variable itself).       *)
EXTENDS Flags, Sequences, TLC, Json
CONSTANTS U, Small, MaxLen
VARIABLES m, a, b, h
vars == <<m, a, b, h>>
Init == \/ m = "expr" /\ a \in SUBSET U /\ b \in SUBSET U /\ h = << >>
        \/ m = "seq" /\ a \in SUBSET Small /\ b \in SUBSET Small /\ h = << <<ToString(Val(a)), ToString(Val(b))>> >>
Apply(op, x, y) == CASE op = "or" -> Union(x, y) [] op = "and" -> Inter(x, y) [] op = "xor" -> Diff(x, y)
\* one assigning operation on a; the operand is b, a itself or the complement of b
Assign == \E op \in {"or", "and", "xor"}, o \in {"b", "self", "notb"} :
             LET y == CASE o = "b" -> b [] o = "self" -> a [] o = "notb" -> Compl(U, b)
             IN a' = Apply(op, a, y) /\ b' = b /\ h' = Append(h, <<op, o>>)
Swap == a' = b /\ b' = a /\ h' = Append(h, <<"swap", "">>)
Next == m = "seq" /\ Len(h) <= MaxLen /\ m' = m /\ (Assign \/ Swap)
Spec == Init /\ [][Next]_vars
Algebra == m = "expr" => /\ Compl(U, Union(a, b)) = Inter(Compl(U, a), Compl(U, b))
                         /\ Compl(U, Compl(U, a)) = a
                         /\ Diff(a, b) = Inter(Union(a, b), Compl(U, Inter(a, b)))
Emit == /\ m = "expr" => PrintT("EXPR " \o ToJson(<<Val(a), Val(b), Val(Union(a, b)), Val(Inter(a, b)), Val(Diff(a, b)), Val(Compl(U, a))>>))
        /\ (m = "seq" /\ Len(h) = MaxLen + 1) => PrintT("SEQ " \o ToJson(<<h, Val(a), Val(b)>>))
=============================================================================
