-------------------------------- MODULE Units --------------------------------
(* Size literals on natural numbers of any size (little-endian limbs, base     *)
(* 4096), and DHT node values.                                                 *)
EXTENDS Integers, Sequences
Base == 4096
RECURSIVE MulC(_, _, _)
\* (limbs * k) + carry
MulC(x, k, c) == IF x = << >> THEN (IF c = 0 THEN << >> ELSE <<c % Base>> \o MulC(<< >>, k, c \div Base))
                 ELSE LET v == x[1] * k + c IN <<v % Base>> \o MulC(Tail(x), k, v \div Base)
Mul(x, k) == MulC(x, k, 0)
RECURSIVE Times(_, _, _)
Times(x, k, n) == IF n = 0 THEN x ELSE Times(Mul(x, k), k, n - 1)
RECURSIVE DivC(_, _, _)
\* long division from the most significant limb; returns big-endian quotient
DivC(x, d, r) == IF x = << >> THEN << >>
                 ELSE LET v == r * Base + x[Len(x)] IN <<v \div d>> \o DivC(SubSeq(x, 1, Len(x) - 1), d, v % d)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Div(x, d) == Rev(DivC(x, d, 0))
RECURSIVE Trim(_)
Trim(x) == IF x = << >> \/ x[Len(x)] # 0 THEN x ELSE Trim(SubSeq(x, 1, Len(x) - 1))
\* representable in 64 bits: at most 5 full limbs (60 bits) and 4 bits more
Fits(x) == LET t == Trim(x) IN Len(t) <= 5 \/ (Len(t) = 6 /\ t[6] < 16)

Units == {"KiB", "MiB", "GiB", "TiB", "KB", "MB", "GB", "TB", "bits"}
Power(u) == CASE u \in {"KiB", "KB"} -> 1 [] u \in {"MiB", "MB"} -> 2 [] u \in {"GiB", "GB"} -> 3 [] u \in {"TiB", "TB"} -> 4
Factor(u) == IF u \in {"KiB", "MiB", "GiB", "TiB"} THEN 1024 ELSE 1000
Bytes(u, x) == Trim(IF u = "bits" THEN Div(x, 8) ELSE Times(x, Factor(u), Power(u)))

\* order of (host, port) pairs: hosts as byte sequences, then ports
RECURSIVE Less(_, _)
Less(s, t) == IF t = << >> THEN FALSE ELSE IF s = << >> THEN TRUE
              ELSE IF s[1] # t[1] THEN s[1] < t[1] ELSE Less(Tail(s), Tail(t))
NodeLess(a, b) == Less(a[1], b[1]) \/ (a[1] = b[1] /\ a[2] < b[2])
NodeCmp(a, b) == IF a = b THEN 0 ELSE IF NodeLess(a, b) THEN -1 ELSE 1
=============================================================================
