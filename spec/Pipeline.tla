------------------------------ MODULE Pipeline -------------------------------
(* What hashing and verifying a storage have to give. A file is [s: size, k:    *)
(* "file" or "pad"]; bytes are named by segments <<file, offset, length>>, so   *)
(* that a digest is determined by the segments it covers; hashes of the Merkle  *)
(* trees are the terms of Merkle.tla over block segments (<<>>: the zero leaf). *)
EXTENDS Merkle, FiniteSets, SequencesExt
Block == 16384
Less(a, b) == IF a < b THEN a ELSE b
More(a, b) == IF a > b THEN a ELSE b
Ceil(a, b) == (a + b - 1) \div b
RECURSIVE StartOf(_, _)
StartOf(fs, i) == IF i <= 1 THEN 0 ELSE StartOf(fs, i - 1) + fs[i - 1].s
Total(fs) == StartOf(fs, Len(fs) + 1)
IsPad(f) == f.k = "pad"
Regular(fs) == SelectSeq(fs, LAMBDA f : ~IsPad(f))
\* the bytes a..b-1 of all files one after the other
Bytes(fs, a, b) == SelectSeq([i \in DOMAIN fs |-> LET s == StartOf(fs, i) IN LET lo == More(a, s) IN LET hi == Less(b, s + fs[i].s) IN <<i, lo - s, hi - lo>>],
                             LAMBDA x : x[3] > 0)
Pieces(fs, P) == Ceil(Total(fs), P)
V1(fs, P) == [k \in 1..Pieces(fs, P) |-> Bytes(fs, (k - 1) * P, Less(k * P, Total(fs)))]
Blocks(fs, i) == [j \in 1..Ceil(fs[i].s, Block) |-> <<i, (j - 1) * Block, Less(Block, fs[i].s - (j - 1) * Block)>>]
HasV2(f) == ~IsPad(f) /\ f.s > 0
V2Root(fs, i) == Root(Blocks(fs, i), << >>)
V2Pieces(f, P) == IF HasV2(f) THEN Ceil(f.s, P) ELSE 0
V2Layer(fs, i, P) == IF fs[i].s <= P THEN << >> ELSE SubSeq(LayerAbove(Blocks(fs, i), << >>, Log2(P \div Block)), 1, Ceil(fs[i].s, P))
V2(fs, P) == [i \in DOMAIN fs |-> IF HasV2(fs[i]) THEN [root |-> V2Root(fs, i), layer |-> V2Layer(fs, i, P)] ELSE [root |-> << >>, layer |-> << >>]]
\* hybrid torrents: padding after every file but the last, so that each file starts a piece
Pad(n) == [s |-> n, k |-> "pad"]
Aligned(fs, P) == LET r == Regular(fs) IN
   FoldLeft(LAMBDA acc, i : acc \o <<r[i]>> \o (IF i < Len(r) /\ r[i].s % P # 0 THEN <<Pad(P - (r[i].s % P))>> ELSE << >>), << >>, [i \in DOMAIN r |-> i])
\* verification: D is the set of damaged byte ranges <<file, from, to>>
Hit(seg, d) == seg[1] = d[1] /\ seg[2] < d[3] /\ d[2] < seg[2] + seg[3]
GoodSegs(segs, D) == \A k \in DOMAIN segs : \A d \in D : ~Hit(segs[k], d)
Good1(fs, P, D) == LET v == V1(fs, P) IN [k \in DOMAIN v |-> GoodSegs(v[k], D)]
Span(fs, P, i) == IF fs[i].s = 0 THEN {} ELSE ((StartOf(fs, i) \div P) + 1)..Ceil(StartOf(fs, i) + fs[i].s, P)
Count(S, g) == Cardinality({k \in S : g[k]})
Share1(fs, P, D) == LET g == Good1(fs, P, D) IN [i \in DOMAIN fs |-> <<Count(Span(fs, P, i), g), Cardinality(Span(fs, P, i))>>]
Good2(fs, P, D, i) == [k \in 1..V2Pieces(fs[i], P) |-> GoodSegs(<<<<i, (k - 1) * P, Less(P, fs[i].s - (k - 1) * P)>>>>, D)]
Map2(fs, P, D) == [i \in DOMAIN fs |-> Good2(fs, P, D, i)]
=============================================================================
