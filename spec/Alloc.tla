-------------------------------- MODULE Alloc --------------------------------
(* An aligned allocator: the set of live blocks. Blocks are half-open address   *)
(* intervals; they are pairwise disjoint, large enough and aligned.             *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLE live      \* id -> [lo, hi]
Ids == DOMAIN live
Disjoint(lo, hi) == \A j \in Ids : hi <= live[j].lo \/ live[j].hi <= lo
\* a request for n > 0 elements: the block [lo, hi) given, its address modulo the alignment
Allocate(i, lo, hi, mod) == /\ i \notin Ids /\ lo < hi /\ mod = 0 /\ Disjoint(lo, hi)
                            /\ live' = [j \in Ids \union {i} |-> IF j = i THEN [lo |-> lo, hi |-> hi] ELSE live[j]]
Nothing(i) == UNCHANGED live         \* a request for no elements, or one too large to represent: no block
Free(i) == i \in Ids /\ live' = [j \in Ids \ {i} |-> live[j]]
Inv == \A i, j \in Ids : i # j => live[i].hi <= live[j].lo \/ live[j].hi <= live[i].lo
=============================================================================
