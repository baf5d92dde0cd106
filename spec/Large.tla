------------------------------- MODULE Large --------------------------------
(* The results of hashing for contents far beyond the bounded layouts of PipeModel: files of many blocks that are   *)
(* zero but for a few marked bytes. Sizes are pairs <<blocks, rest>> of 16 KiB blocks and remaining bytes, because  *)
(* they exceed TLC's integers. Digests are terms:                                                                  *)
(*   <<"z", h>>   the tree of height h over 2^h whole blocks of zeros                                               *)
(*   <<"p", h>>   the tree of height h over 2^h absent blocks                                                       *)
(*   <<"b", n, marks>>   a block of n bytes with the marked offsets        <<"n", l, r>>   an inner node             *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
B == 16384
File == [b : Nat, r : 0..(B - 1), m : Seq(Nat \X (0..(B - 1)))]      \* whole blocks, rest, marked positions
Plus(x, y) == <<x[1] + y[1] + ((x[2] + y[2]) \div B), (x[2] + y[2]) % B>>
NBlocks(f) == f.b + (IF f.r > 0 THEN 1 ELSE 0)
\* S = Starts(fs): where each file starts, and the end of the last one
Starts(fs) == FoldLeft(LAMBDA acc, f : Append(acc, Plus(acc[Len(acc)], <<f.b, f.r>>)), <<<<0, 0>>>>, fs)
CeilDiv(a, b) == (a + b - 1) \div b

(* v1: pieces of P blocks of the concatenation *)
Count1(S, P) == LET e == S[Len(S)] IN CeilDiv(e[1] + (IF e[2] > 0 THEN 1 ELSE 0), P)
Marks(fs, S) == UNION {{Plus(S[i], fs[i].m[k]) : k \in DOMAIN fs[i].m} : i \in DOMAIN fs}
\* the pieces that are not P blocks of zeros: number, size and marked positions
Special1(fs, S, P) ==
   LET last == Count1(S, P) - 1 IN LET e == S[Len(S)] IN LET M == Marks(fs, S) IN
   LET partial == IF e[2] > 0 \/ e[1] % P # 0 THEN {last} ELSE {} IN
   {[i |-> i, size |-> IF i \in partial THEN <<e[1] - i * P, e[2]>> ELSE <<P, 0>>,
     m |-> {<<x[1] - i * P, x[2]>> : x \in {y \in M : y[1] \div P = i}}] : i \in partial \cup {x[1] \div P : x \in M}}
Bad1(fs, S, P, D) == {Plus(S[d[1]], fs[d[1]].m[d[2]])[1] \div P : d \in D}
Pieces1(S, P, i) ==      \* first and one past the last piece that hold bytes of file i
   LET s == S[i] IN LET e == S[i + 1] IN
   IF s = e THEN <<0, 0>> ELSE <<s[1] \div P, CeilDiv(e[1] + (IF e[2] > 0 THEN 1 ELSE 0), P)>>

(* v2: the tree over the blocks of one file *)
RECURSIVE Node(_, _, _)
Node(f, i, h) ==
   LET lo == i * 2^h IN LET hi == (i + 1) * 2^h IN
   IF lo >= NBlocks(f) THEN <<"p", h>>
   ELSE IF hi <= f.b /\ \A k \in DOMAIN f.m : f.m[k][1] < lo \/ f.m[k][1] >= hi THEN <<"z", h>>
   ELSE IF h = 0 THEN <<"b", IF i = f.b THEN f.r ELSE B, {f.m[k][2] : k \in {k \in DOMAIN f.m : f.m[k][1] = i}}>>
   ELSE <<"n", Node(f, 2 * i, h - 1), Node(f, 2 * i + 1, h - 1)>>
Height(n) == CHOOSE h \in 0..30 : 2^h >= n /\ (h = 0 \/ 2^(h - 1) < n)
Root(f) == Node(f, 0, Height(NBlocks(f)))
Count2(f, P) == IF NBlocks(f) > P THEN CeilDiv(NBlocks(f), P) ELSE 0
\* the hashes of the piece layer that are not those of P blocks of zeros
Special2(f, P) == {[i |-> i, t |-> Node(f, i, Height(P))] : i \in {i \in {f.m[k][1] \div P : k \in DOMAIN f.m} \cup {Count2(f, P) - 1} : i >= 0 /\ i < Count2(f, P)}}
Bad2(f, P, i, D) == {f.m[d[2]][1] \div P : d \in {d \in D : d[1] = i}}
=============================================================================
