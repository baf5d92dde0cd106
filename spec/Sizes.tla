-------------------------------- MODULE Sizes ---------------------------------
(* Byte counts as <<blocks, bytes>> with 16384 bytes to a block, so that sizes  *)
(* far beyond TLC's integers stay exact. A piece of exponent e has 2^e bytes.   *)
EXTENDS Integers, Sequences
B == 16384
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
Zero == <<0, 0>>
Plus(a, b) == LET r == a[2] + b[2] IN <<a[1] + b[1] + (r \div B), r % B>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN Zero ELSE Plus(SumTo(s, n - 1), s[n])
Sum(s) == SumTo(s, Len(s))
BlocksOf(e) == Pow2(e - 14)                                   \* blocks of a piece
Whole(a, e) == a[1] \div BlocksOf(e)                          \* complete pieces
Rest(a, e) == <<a[1] % BlocksOf(e), a[2]>>                    \* bytes after them
Up(a, e) == Whole(a, e) + (IF Rest(a, e) = Zero THEN 0 ELSE 1)
\* bytes missing to a multiple of the piece
Missing(a, e) == LET r == Rest(a, e) IN
   IF r = Zero THEN Zero
   ELSE IF r[2] = 0 THEN <<BlocksOf(e) - r[1], 0>> ELSE <<BlocksOf(e) - r[1] - 1, B - r[2]>>
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Log2Size(a) == IF a[1] > 0 THEN 14 + Log2(a[1]) ELSE Log2(a[2])
=============================================================================
