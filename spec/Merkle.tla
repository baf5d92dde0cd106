------------------------------- MODULE Merkle --------------------------------
(* Binary hash trees. A hash is a term: a leaf value, or <<l, r>> for the hash *)
(* of the concatenation of l and r. Leaves beyond the given ones are Zero.     *)
EXTENDS Integers, Sequences
RECURSIVE Up2(_, _)
Up2(n, p) == IF p >= n THEN p ELSE Up2(n, 2 * p)
PowerAbove(n) == Up2(n, 1)                     \* smallest power of two >= n (1 for 0)
RECURSIVE Log2(_)
Log2(p) == IF p <= 1 THEN 0 ELSE 1 + Log2(p \div 2)
Above(s) == [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>]
Padded(leaves, zero) == [i \in 1..PowerAbove(Len(leaves)) |-> IF i <= Len(leaves) THEN leaves[i] ELSE zero]
\* all layers from the root down
RECURSIVE Layers(_)
Layers(s) == IF Len(s) <= 1 THEN <<s>> ELSE Append(Layers(Above(s)), s)
Root(leaves, zero) == Layers(Padded(leaves, zero))[1][1]
\* the layer whose nodes cover 2^k leaves each
LayerAbove(leaves, zero, k) == LET ls == Layers(Padded(leaves, zero)) IN ls[Len(ls) - k]
=============================================================================
