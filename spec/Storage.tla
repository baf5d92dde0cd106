------------------------------- MODULE Storage --------------------------------
(* A file storage: an ordered list of files with a piece size and hashes.       *)
(* A file is [p: path components, s: size, k: kind, id: identity of the rest].  *)
(* Kinds: "file", "pad". State: [f: files, e: piece exponent (0: none), v1: the *)
(* v1 hashes, mode].                                                            *)
EXTENDS Sizes, SequencesExt, FiniteSets
Empty == [f |-> << >>, e |-> 0, v1 |-> << >>, mode |-> "empty"]
SizesOf(fs) == [i \in DOMAIN fs |-> fs[i].s]
IsPad(x) == x.k = "pad"
Regular(fs) == SelectSeq(fs, LAMBDA x : ~IsPad(x))
Total(st) == Sum(SizesOf(st.f))
TotalRegular(st) == Sum(SizesOf(Regular(st.f)))
Pieces(st) == IF st.e = 0 THEN 0 ELSE Up(Total(st), st.e)
Mode(st) == CASE Len(st.f) = 0 -> "empty" [] Len(st.f) = 1 -> st.mode [] OTHER -> "multi"
Start(st, i) == SumTo(SizesOf(st.f), i - 1)
\* pieces occupied by the bytes of a file: first, one past the last (empty for an empty file)
Span(st, i) == LET a == Start(st, i) IN LET b == Plus(a, st.f[i].s) IN
   IF st.f[i].s = Zero THEN <<Whole(a, st.e), Whole(a, st.e)>> ELSE <<Whole(a, st.e), Up(b, st.e)>>
Aligned(st) == \A i \in DOMAIN st.f : IsPad(st.f[i]) \/ Rest(Start(st, i), st.e) = Zero
Below(p, d) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
DirsOf(fs) == UNION {{SubSeq(fs[i].p, 1, n) : n \in 1..(Len(fs[i].p) - 1)} : i \in DOMAIN fs}
\* directories on the way to the files below a directory
DirsBelow(fs, d) == DirsOf(SelectSeq(fs, LAMBDA x : Below(x.p, d)))
OnlyPads(fs, d) == \A i \in DOMAIN fs : Below(fs[i].p, d) => IsPad(fs[i])
Pad(s) == [p |-> <<".pad", s>>, s |-> s, k |-> "pad", id |-> 0]
\* alignment: padding of exactly the missing size after every file but the last
Align(fs, e) ==
   LET r == Regular(fs) IN
   FoldLeft(LAMBDA acc, i : acc \o <<r[i]>> \o (IF i < Len(r) /\ Missing(r[i].s, e) # Zero THEN <<Pad(Missing(r[i].s, e))>> ELSE << >>),
            << >>, [i \in DOMAIN r |-> i])
ChosenExponent(st) == LET x == Log2Size(Total(st)) - 9 IN IF x < 15 THEN 15 ELSE IF x > 24 THEN 24 ELSE x
NoV2(fs) == [i \in DOMAIN fs |-> [fs[i] EXCEPT !.id = IF @ >= 100 THEN @ - 100 ELSE @]]
HasV2(x) == x.id >= 100
Set(st, e) == [st EXCEPT !.e = e, !.v1 = << >>, !.f = NoV2(@)]
First(fs, p) == CHOOSE i \in DOMAIN fs : fs[i].p = p /\ \A j \in 1..(i - 1) : fs[j].p # p
Step(st, op) ==
   CASE op[1] = "add" -> [st EXCEPT !.f = Append(@, op[2])]
     [] op[1] = "del" -> IF \E i \in DOMAIN st.f : st.f[i].p = op[2] THEN [st EXCEPT !.f = RemoveAt(@, First(@, op[2]))] ELSE st
     [] op[1] = "clear" -> [st EXCEPT !.f = << >>, !.v1 = << >>]
     [] op[1] = "piece" -> Set(st, op[2])
     [] op[1] = "choose" -> Set(st, ChosenExponent(st))
     [] op[1] = "mode" -> [st EXCEPT !.mode = op[2]]
     [] op[1] = "alloc" -> [st EXCEPT !.v1 = [i \in 1..Pieces(st) |-> 0]]
     [] op[1] = "hash" -> [st EXCEPT !.v1[op[2]] = op[3]]
     [] op[1] = "align" -> [st EXCEPT !.f = Align(@, st.e), !.v1 = << >>]
     [] OTHER -> st                        \* copies, assignments, moves, queries
Hashable(st) == \E i \in DOMAIN st.f : ~IsPad(st.f[i]) /\ st.f[i].s # Zero
Protocol(st) == LET v2 == \A i \in DOMAIN st.f : IsPad(st.f[i]) \/ st.f[i].s = Zero \/ HasV2(st.f[i]) IN
   IF st.v1 # << >> THEN IF v2 THEN 3 ELSE 1 ELSE IF v2 THEN 2 ELSE 0
\* everything the public queries show
Obs(st) ==
   [files |-> st.f, n |-> Len(st.f), reg |-> Len(Regular(st.f)), total |-> Total(st), totalreg |-> TotalRegular(st),
    e |-> st.e, pieces |-> Pieces(st), v1 |-> st.v1, mode |-> Mode(st),
    spans |-> IF st.e = 0 THEN << >> ELSE [i \in DOMAIN st.f |-> Span(st, i)],
    starts |-> [i \in DOMAIN st.f |-> Start(st, i)],
    ends |-> [i \in DOMAIN st.f |-> Plus(Start(st, i), st.f[i].s)],
    ends2 |-> [i \in DOMAIN st.f |-> Sum(SizesOf(Regular(SubSeq(st.f, 1, i))))],
    aligned |-> IF st.e = 0 THEN "-" ELSE IF Aligned(st) THEN "1" ELSE "0",
    dirs |-> Cardinality(DirsOf(st.f)),
    dirsnopad |-> Cardinality({d \in DirsOf(st.f) : ~OnlyPads(st.f, d)}),
    list |-> SetToSeq({<<d, {i \in DOMAIN st.f : Below(st.f[i].p, d)}>> : d \in DirsOf(st.f)}),
    proto |-> IF Hashable(st) THEN Protocol(st) ELSE -1]
=============================================================================
