------------------------------- MODULE Digests -------------------------------
(* Hash functions, digest values, checksums and info hashes.                   *)
EXTENDS Integers, Sequences, Hex, TLC
\* name -> size in bytes of the functions the library supports
Sizes == [md4 |-> 16, md5 |-> 16, blake2b_512 |-> 64, blake2s_256 |-> 32, sha1 |-> 20, sha224 |-> 28, sha256 |-> 32, sha384 |-> 48, sha512 |-> 64,
          sha3_224 |-> 28, sha3_256 |-> 32, sha3_384 |-> 48, sha3_512 |-> 64, shake128 |-> 16, shake256 |-> 32, ripemd160 |-> 20, whirlpool |-> 64]
Functions == DOMAIN Sizes
\* a digest value is made from exactly as many bytes as its function defines
MakesDigest(f, bytes) == Len(bytes) = Sizes[f]
\* a checksum is named; known names have the size of their function, any other name takes any value
MakesChecksum(n, bytes) == n \in Functions => Len(bytes) = Sizes[n]
\* order of byte sequences
RECURSIVE Cmp(_, _)
Cmp(a, b) == CASE a = b -> 0
               [] a = << >> -> -1
               [] b = << >> -> 1
               [] a[1] # b[1] -> (IF a[1] < b[1] THEN -1 ELSE 1)
               [] OTHER -> Cmp(Tail(a), Tail(b))
\* checksums of different names are different and not ordered
CmpChecksum(n, a, m, b) == IF n # m THEN "unordered" ELSE ToString(Cmp(a, b))
\* info hashes: [v1, v2] with << >> for an absent part
Version(i) == (IF i.v1 = << >> THEN 0 ELSE 1) + (IF i.v2 = << >> THEN 0 ELSE 2)
\* admissible orders: by version, and by bytes within v1 and v2; hybrid ones by both parts, either first
CmpInfo(i, j) == IF i = j THEN {0}
                 ELSE IF Version(i) # Version(j) THEN {IF Version(i) < Version(j) THEN -1 ELSE 1}
                 ELSE {Cmp(i.v1, j.v1), Cmp(i.v2, j.v2)} \ {0}
=============================================================================
