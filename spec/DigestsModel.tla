---------------------------- MODULE DigestsModel -----------------------------
EXTENDS Digests, Json
CONSTANT Bytes5
VARIABLE c
Pat(n, k) == [i \in 1..n |-> ((i * 29 + k * 101 + 5) % 256)]
With(s, p, x) == [s EXCEPT ![p] = x]
Ih(a, b) == [v1 |-> a, v2 |-> b]
A1 == Pat(20, 1)
A2 == With(Pat(20, 1), 20, 255)
B1 == Pat(32, 2)
B2 == With(Pat(32, 2), 21, 0)
Ihs == {Ih(A1, << >>), Ih(A2, << >>), Ih(<< >>, B1), Ih(<< >>, B2), Ih(A1, B1), Ih(A1, B2), Ih(A2, B1), Ih(A2, B2)}
Lens(f) == {0, 1, Sizes[f] - 1, Sizes[f], Sizes[f] + 1, 2 * Sizes[f]} \union {16, 20, 28, 32, 48, 64}
Others == {"custom", "SHA1", "sha-1", "sha1 ", "", "md2", "none", "sha3_383", "crc32"}
Init == \/ \E f \in Functions, n \in 0..3, k \in 0..2 : \E l \in Lens(f) : c = <<"digest", f, Pat(l, k)>>
        \/ \E f \in Functions, p \in 1..64, x, y \in Bytes5 : p <= Sizes[f] /\ c = <<"cmp", f, With(Pat(Sizes[f], 3), p, x), With(Pat(Sizes[f], 3), p, y)>>
        \/ \E f \in Functions \union Others, l \in {0, 1, 16, 20, 28, 32, 48, 64} : c = <<"checksum", f, Pat(l, 1)>>
        \/ \E f, g \in Functions : c = <<"cmpchk", f, Pat(Sizes[f], 1), g, Pat(Sizes[g], 1)>>
        \/ \E n, m \in {"x", "y"}, a, b \in {<< >>, <<1>>, <<1, 0>>, <<200>>, <<2>>} : c = <<"cmpchk", n, a, m, b>>
        \/ \E i, j \in Ihs : c = <<"info", i, j>>
Spec == Init /\ [][UNCHANGED c]_c
Sane == /\ c[1] = "cmp" => Cmp(c[3], c[4]) = 0 - Cmp(c[4], c[3]) /\ (Cmp(c[3], c[4]) = 0) = (c[3] = c[4])
        /\ c[1] = "info" => (0 \in CmpInfo(c[2], c[3])) = (c[2] = c[3])
        /\ c[1] = "digest" => FromHex(ToHex(c[3])) = c[3]
Emit == CASE c[1] = "digest" -> PrintT("DIGEST " \o ToJson(<<c[2], c[3], MakesDigest(c[2], c[3])>>))
          [] c[1] = "cmp" -> PrintT("CMP " \o ToJson(<<c[2], c[3], c[4], Cmp(c[3], c[4])>>))
          [] c[1] = "checksum" -> PrintT("CHK " \o ToJson(<<c[2], c[3], MakesChecksum(c[2], c[3]), c[2] \in Functions>>))
          [] c[1] = "cmpchk" -> PrintT("CMPCHK " \o ToJson(<<c[2], c[3], c[4], c[5], CmpChecksum(c[2], c[3], c[4], c[5])>>))
          [] c[1] = "info" -> PrintT("INFO " \o ToJson(<<c[2], c[3], CmpInfo(c[2], c[3])>>))
ASSUME PrintT("SIZES " \o ToJson(Sizes))
=============================================================================
