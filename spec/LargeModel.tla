----------------------------- MODULE LargeModel ------------------------------
EXTENDS Large, TLC, Json, IOUtils, SequencesExt
Inputs == JsonDeserialize(IOEnv.INPUTS)      \* [files, blocks per piece, damages]
VARIABLE k
Init == k = 0
Next == k < Len(Inputs) /\ k' = k + 1
Spec == Init /\ [][Next]_k
fs == Inputs[k][1]
P == Inputs[k][2]
D == ToSet(Inputs[k][3])
Row == LET S == Starts(fs) IN
       [k |-> k, n1 |-> Count1(S, P), special1 |-> SetToSeq(Special1(fs, S, P)), bad1 |-> SetToSeq(Bad1(fs, S, P, D)),
        range |-> [i \in DOMAIN fs |-> Pieces1(S, P, i)],
        v2 |-> [i \in DOMAIN fs |-> IF NBlocks(fs[i]) = 0 THEN << >> ELSE
                 [root |-> Root(fs[i]), n |-> Count2(fs[i], P), special |-> SetToSeq(Special2(fs[i], P)), bad |-> SetToSeq(Bad2(fs[i], P, i, D))]]]
\* the mark of every file is in exactly one v1 piece and one block; the tree of a file is the tree of its layer
RECURSIVE Below(_)
Below(t) == CASE t[1] = "n" -> Below(t[2]) + Below(t[3]) [] t[1] = "b" -> 1 [] t[1] = "p" -> 0 [] OTHER -> 2^t[2]
Sane == k > 0 => LET S == Starts(fs) IN LET X == Special1(fs, S, P) IN
   /\ \A i \in DOMAIN fs : NBlocks(fs[i]) > 0 => Below(Root(fs[i])) = NBlocks(fs[i])
   /\ \A i \in DOMAIN fs : \A x \in Special2(fs[i], P) : Below(x.t) = IF x.i = Count2(fs[i], P) - 1 THEN NBlocks(fs[i]) - x.i * P ELSE P
   /\ \A x \in X : x.size[1] <= P /\ (x.i < Count1(S, P) - 1 => x.size = <<P, 0>>) /\ \A y \in x.m : y[1] < x.size[1] \/ (y[1] = x.size[1] /\ y[2] < x.size[2])
   /\ Bad1(fs, S, P, D) \subseteq {x.i : x \in X}
   /\ PrintT("CASE " \o ToJson(Row))
=============================================================================
