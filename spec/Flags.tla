-------------------------------- MODULE Flags --------------------------------
(* Flag enumerations as sets of flags.                                         *)
EXTENDS Integers, FiniteSets
Union(a, b) == a \union b
Inter(a, b) == a \intersect b
Diff(a, b)  == (a \ b) \union (b \ a)
Compl(U, a) == U \ a
\* the number that represents a set of flags 0..7
Val(S) == (IF 0 \in S THEN 1 ELSE 0) + (IF 1 \in S THEN 2 ELSE 0) + (IF 2 \in S THEN 4 ELSE 0) + (IF 3 \in S THEN 8 ELSE 0)
        + (IF 4 \in S THEN 16 ELSE 0) + (IF 5 \in S THEN 32 ELSE 0) + (IF 6 \in S THEN 64 ELSE 0) + (IF 7 \in S THEN 128 ELSE 0)
=============================================================================
