------------------------------ MODULE PipeModel ------------------------------
(* Layouts, piece sizes and damages, with the results the specification gives.  *)
EXTENDS Pipeline, TLC, Json, IOUtils
CONSTANTS Mode, MaxFiles, Ps, WithPads, MaxDamage
VARIABLES fs, p, dmg
vars == <<fs, p, dmg>>
Extra == JsonDeserialize(IOEnv.INPUTS)
Sz(P) == CASE Mode \in {"v1", "hybrid"} -> {0, 1, P - 1, P, P + 1, 2 * P, 2 * P + 1, 3 * P + 77}
           [] Mode = "v2" -> {0, 1, Block, Block + 1, P - 1, P, P + 1, 2 * P, 2 * P + 1, 3 * P - 1, 5 * P - 9}
           [] OTHER -> {0, 5, P, P + 1, 2 * P - 1, 4 * P, 3 * P + 77}
Files(P) == [s : Sz(P), k : {"file"}] \cup (IF WithPads THEN [s : {1, P - 1, 2 * P + 3}, k : {"pad"}] ELSE {})
Init == fs = << >> /\ p \in Ps /\ dmg = {}
AddFile == Len(fs) < MaxFiles /\ dmg = {} /\ \E f \in Files(p) : fs' = Append(fs, f) /\ UNCHANGED <<p, dmg>>
\* damage of one file: a changed byte, missing bytes at the end, the whole file missing, bytes too many
Spots(n) == {o \in {0, 1 * p - 1, 1 * p, 2 * p + 1, n - 1} : o >= 0 /\ o < n}
Kinds(n) == {<<"flip", o>> : o \in Spots(n)} \cup {<<"trunc", o>> : o \in Spots(n)} \cup {<<"miss", 0>>, <<"dir", 0>>, <<"ext", 7>>, <<"ext", 2 * p>>}
AddDamage == Cardinality(dmg) < MaxDamage /\ \E i \in DOMAIN fs : ~IsPad(fs[i]) /\ (\A x \in dmg : x[1] # i)
               /\ \E d \in Kinds(fs[i].s) : dmg' = dmg \cup {<<i, d>>} /\ UNCHANGED <<fs, p>>
\* a hash of the torrent that is not that of the bytes on disk: of a piece of the stream (v1, named by file 0) or of a file (v2)
Wrong1 == {<<0, <<"hash", k>>>> : k \in IF Mode = "ver1" THEN 1..Pieces(fs, p) ELSE {}}
Wrong2 == UNION {{<<i, <<"hash", k>>>> : k \in IF Mode = "ver2" THEN 1..V2Pieces(fs[i], p) ELSE {}} : i \in DOMAIN fs}
WrongHash == Cardinality(dmg) < MaxDamage /\ \E y \in Wrong1 \cup Wrong2 : (\A x \in dmg : x[1] # y[1]) /\ dmg' = dmg \cup {y} /\ UNCHANGED <<fs, p>>
Next == AddFile \/ AddDamage \/ WrongHash
Spec == Init /\ [][Next]_vars
Harm(f, x) == LET d == x[2] IN IF d[1] = "flip" THEN <<x[1], d[2], d[2] + 1>> ELSE IF d[1] = "trunc" THEN <<x[1], Less(d[2], f[x[1]].s), f[x[1]].s>>
                                 ELSE IF d[1] = "ext" THEN <<x[1], 0, 0>> ELSE <<x[1], 0, f[x[1]].s>>
Harms(f, D, P) == UNION {IF x[2][1] = "hash" /\ x[1] = 0 THEN {<<y[1], y[2], y[2] + y[3]>> : y \in ToSet(V1(f, P)[x[2][2]])}
                         ELSE IF x[2][1] = "hash" THEN {<<x[1], (x[2][2] - 1) * P, Less(x[2][2] * P, f[x[1]].s)>>} ELSE {Harm(f, x)} : x \in D}
Row(f, P, D, m) ==
   LET a == IF m = "hybrid" THEN Aligned(f, P) ELSE f IN LET H == Harms(f, D, P) IN
   [files |-> a, p |-> P,
    v1 |-> IF m \in {"v1", "hybrid", "ver1"} THEN V1(a, P) ELSE << >>,
    v2 |-> IF m \in {"v2", "hybrid", "ver2"} THEN V2(a, P) ELSE << >>,
    dmg |-> SetToSeq(D),
    map1 |-> IF m = "ver1" THEN Good1(a, P, H) ELSE << >>, share1 |-> IF m = "ver1" THEN Share1(a, P, H) ELSE << >>,
    map2 |-> IF m = "ver2" THEN Map2(a, P, H) ELSE << >>]
\* properties of the specification
RECURSIVE SumLen(_)
SumLen(s) == IF s = << >> THEN 0 ELSE s[1][3] + SumLen(Tail(s))
Sane ==
   LET v == V1(fs, p) IN LET a == Aligned(fs, p) IN LET H == Harms(fs, dmg, p) IN
   /\ SumLen(FlattenSeq(v)) = Total(fs) /\ \A k \in DOMAIN v : SumLen(v[k]) = IF k < Len(v) THEN p ELSE Total(fs) - (Len(v) - 1) * p
   \* with alignment no piece holds bytes of two regular files, and the regular content of the v1 pieces is that of the files
   /\ \A k \in DOMAIN V1(a, p) : Cardinality({i \in DOMAIN a : ~IsPad(a[i]) /\ \E x \in ToSet(V1(a, p)[k]) : x[1] = i}) <= 1
   /\ \A i \in DOMAIN fs : HasV2(fs[i]) => SumLen(Blocks(fs, i)) = fs[i].s /\ Len(V2Layer(fs, i, p)) = IF fs[i].s <= p THEN 0 ELSE Ceil(fs[i].s, p)
   \* without damage everything is good; damage is never good in both, and confined to the file in v2
   /\ (H = {} => \A k \in DOMAIN v : Good1(fs, p, H)[k])
   /\ \A i \in DOMAIN fs : (\A h \in H : h[1] # i) => \A k \in DOMAIN Good2(fs, p, H, i) : Good2(fs, p, H, i)[k]
Emit == PrintT("CASE " \o ToJson(Row(fs, p, dmg, Mode)))
ASSUME \A k \in DOMAIN Extra : PrintT("CASE " \o ToJson(Row(Extra[k][1], Extra[k][2], ToSet(Extra[k][3]), Mode)))
=============================================================================
