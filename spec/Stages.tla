------------------------------- MODULE Stages --------------------------------
(* The stages of the pipeline, each on its own: chunk readers give out the     *)
(* pieces of the files in order; chunk hashers, piece writers and piece        *)
(* verifiers take items from a queue, in any order and with any number of      *)
(* workers.                                                                    *)
(* Sizes are counted in halves of a block (8 KiB): a block is 2, a piece 2 * p.*)
(* A layout is [proto |-> "v1" | "v2" | "hybrid", p |-> blocks per piece,      *)
(*   c |-> pieces per chunk, files |-> << [size, pad, miss] >>]                *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CeilDiv(a, b) == (a + b - 1) \div b
Least(a, b) == IF a < b THEN a ELSE b
Piece(l) == 2 * l.p
Total(l) == FoldLeft(LAMBDA a, f : a + f.size, 0, l.files)
Data(l) == {f \in DOMAIN l.files : l.files[f].pad = 0 /\ l.files[f].size > 0}
Blocks(l, f) == CeilDiv(l.files[f].size, 2)
Pieces(l, f) == CeilDiv(l.files[f].size, Piece(l))
\* v1 piece number of the first piece of file f of an aligned (hybrid) layout
First(l, f) == FoldLeft(LAMBDA a, g : a + (IF g.pad = 1 THEN 0 ELSE CeilDiv(g.size, Piece(l))), 0, SubSeq(l.files, 1, f - 1))
LastFile(l) == Max(Data(l))

(* ---- items and what they mean ------------------------------------------- *)
\* chunks: of the concatenated files (v1, where a whole piece may be without data), or of each file (v2, where a missing file has one item)
ChunksV1(l) == [k \in 1..CeilDiv(Total(l), Piece(l) * l.c) |->
                  [piece |-> (k - 1) * l.c, file |-> 0, from |-> (k - 1) * l.c * Piece(l), to |-> Least(Total(l), k * l.c * Piece(l)), data |-> 1]]
FileChunks(l, f) == IF l.files[f].miss = 1 THEN <<[piece |-> 0, file |-> f, from |-> 0, to |-> l.files[f].size, data |-> 0]>>
                    ELSE [k \in 1..CeilDiv(l.files[f].size, Piece(l) * l.c) |->
                           [piece |-> (k - 1) * l.c, file |-> f, from |-> (k - 1) * l.c * Piece(l), to |-> Least(l.files[f].size, k * l.c * Piece(l)), data |-> 1]]
ChunksV2(l) == FoldLeft(LAMBDA a, f : IF f \in Data(l) THEN a \o FileChunks(l, f) ELSE a, << >>, [i \in DOMAIN l.files |-> i])
PiecesV1(l) == [k \in 1..CeilDiv(Total(l), Piece(l)) |-> [v |-> 1, index |-> k - 1]]
FileLeaves(l, f) == [k \in 1..Blocks(l, f) |-> [v |-> 2, file |-> f, leaf |-> k - 1]]
LeavesV2(l) == FoldLeft(LAMBDA a, f : IF f \in Data(l) THEN a \o FileLeaves(l, f) ELSE a, << >>, [i \in DOMAIN l.files |-> i])
Aligned(l) == FoldLeft(LAMBDA a, f : IF f \in Data(l) THEN a \o [k \in 1..Pieces(l, f) |-> [v |-> 1, index |-> First(l, f) + k - 1]] ELSE a, << >>, [i \in DOMAIN l.files |-> i])
Items(kind, l) == CASE kind = "read" -> << >>
                    [] kind \in {"hash", "sum"} -> IF l.proto = "v1" THEN ChunksV1(l) ELSE ChunksV2(l)
                    [] l.proto = "v1" -> PiecesV1(l)
                    [] l.proto = "v2" -> LeavesV2(l)
                    [] l.proto = "hybrid" -> LeavesV2(l) \o Aligned(l)

(* ---- reading -------------------------------------------------------------- *)
\* the pieces that are given out, in order; gone: nothing of it is there
Begin(l, f) == FoldLeft(LAMBDA a, g : a + g.size, 0, SubSeq(l.files, 1, f - 1))
Gone(l, from, to) == \A u \in from..(to - 1) : \E f \in Data(l) : l.files[f].miss = 1 /\ Begin(l, f) <= u /\ u < Begin(l, f) + l.files[f].size
ReadV1(l) == [k \in 1..CeilDiv(Total(l), Piece(l)) |-> LET a == (k - 1) * Piece(l)  b == Least(Total(l), k * Piece(l)) IN
                 [file |-> 0, index |-> k - 1, from |-> a, to |-> b, gone |-> IF Gone(l, a, b) THEN 1 ELSE 0]]
ReadFile(l, f) == IF l.files[f].miss = 1 THEN <<[file |-> f, index |-> 0, from |-> 0, to |-> l.files[f].size, gone |-> 1]>>
                  ELSE [k \in 1..Pieces(l, f) |-> [file |-> f, index |-> k - 1, from |-> (k - 1) * Piece(l), to |-> Least(l.files[f].size, k * Piece(l)), gone |-> 0]]
ReadV2(l) == FoldLeft(LAMBDA a, f : IF f \in Data(l) THEN a \o ReadFile(l, f) ELSE a, << >>, [i \in DOMAIN l.files |-> i])
ReadOut(l) == IF l.proto = "v1" THEN ReadV1(l) ELSE ReadV2(l)

(* ---- results -------------------------------------------------------------- *)
\* hash: from chunk k come the digests of the ranges [from, to) (followed by zeros up to pad), each with its place
RangesV1(l, k) == {[v |-> 1, index |-> k.piece + j, file |-> 0, from |-> k.from + j * Piece(l), to |-> Least(k.to, k.from + (j + 1) * Piece(l)), pad |-> 0]
                      : j \in 0..(CeilDiv(k.to - k.from, Piece(l)) - 1)}
RangesV2(l, k) == {[v |-> 2, index |-> (k.from \div 2) + j, file |-> k.file, from |-> k.from + 2 * j, to |-> Least(k.to, k.from + 2 * (j + 1)), pad |-> 0]
                      : j \in 0..(CeilDiv(k.to - k.from, 2) - 1)}
RangesHybrid(l, k) == {[v |-> 1, index |-> First(l, k.file) + k.piece + j, file |-> k.file, from |-> k.from + j * Piece(l), to |-> Least(k.to, k.from + (j + 1) * Piece(l)),
                        pad |-> IF k.file = LastFile(l) THEN 0 ELSE Piece(l)] : j \in 0..(CeilDiv(k.to - k.from, Piece(l)) - 1)}
Ranges(l, k) == IF k.data = 0 THEN {}
                ELSE CASE l.proto = "v1" -> RangesV1(l, k) [] l.proto = "v2" -> RangesV2(l, k) [] OTHER -> RangesV2(l, k) \union RangesHybrid(l, k)
\* write: the v1 pieces that came, and the files all of whose leaves came
Came(l, its, given) == {its[i] : i \in given}
WholeFiles(l, its, given) == {f \in Data(l) : \A b \in 0..(Blocks(l, f) - 1) : [v |-> 2, file |-> f, leaf |-> b] \in Came(l, its, given)}
V1Came(its, given) == {its[i].index : i \in {j \in given : its[j].v = 1}}
\* verify: which of the items are right is a set of item numbers; v1 bits by piece, v2 bits by file and piece
BitsV1(l, its, given, right) == [k \in 1..CeilDiv(Total(l), Piece(l)) |-> IF k \in given \intersect right THEN 1 ELSE 0]
ItemOf(its, f, b) == CHOOSE i \in DOMAIN its : its[i] = [v |-> 2, file |-> f, leaf |-> b]
BitsOfFile(l, its, given, right, f) ==
    [k \in 1..Pieces(l, f) |-> IF /\ f \in WholeFiles(l, its, given)
                                  /\ \A b \in ((k - 1) * l.p)..(Least(k * l.p, Blocks(l, f)) - 1) : ItemOf(its, f, b) \in right THEN 1 ELSE 0]
BitsV2(l, its, given, right) == FoldLeft(LAMBDA a, f : IF f \in Data(l) THEN a \o BitsOfFile(l, its, given, right, f) ELSE a, << >>, [i \in DOMAIN l.files |-> i])
\* progress: every item counts with its size, whether it had data or not
DoneBytes(l, its, given) == FoldSet(LAMBDA i, a : a + its[i].to - its[i].from, 0, given)

\* the bytes that went into digests
HashedBytes(rs) == FoldSet(LAMBDA r, a : a + (IF r.pad > 0 THEN r.pad ELSE r.to - r.from), 0, rs)

\* checksums: the files all of whose bytes came; chunks come in order, so that an empty file is finished with what lies before it
Upto(l, its, given) == IF given = {} THEN 0 ELSE Max({its[i].to : i \in given})
SummedV1(l, its, given) == {f \in DOMAIN l.files : l.files[f].pad = 0 /\ Begin(l, f) + l.files[f].size <= Upto(l, its, given)}
SummedV2(l, its, given) == {f \in Data(l) : l.files[f].miss = 0 /\ \A i \in DOMAIN its : its[i].file = f => i \in given}
Summed(l, its, given) == IF l.proto = "v1" THEN SummedV1(l, its, given) ELSE SummedV2(l, its, given)
SummedBytes(l, its, given) == FoldSet(LAMBDA i, a : a + (IF its[i].data = 1 THEN its[i].to - its[i].from ELSE 0), 0, given)

(* ---- life ----------------------------------------------------------------- *)
VARIABLES ph,       \* "new" | "run" | "over" | "dead" (cancelled before it was started)
          req,      \* "" | "stop" | "cancel"
          given,    \* items handed over before a request
          waiting   \* a wait was called before a request
life == <<ph, req, given, waiting>>
LInit == ph = "new" /\ req = "" /\ given = {} /\ waiting = FALSE
Start == ph = "new" /\ req = "" /\ ph' = "run" /\ UNCHANGED <<req, given, waiting>>
Give(i) == ph # "over" /\ req = "" /\ i \notin given /\ given' = given \union {i} /\ UNCHANGED <<ph, req, waiting>>
Request(r) == ph = "run" /\ req = "" /\ req' = r /\ UNCHANGED <<ph, given, waiting>>
WaitEarly == ph = "run" /\ req = "" /\ ~waiting /\ waiting' = TRUE /\ UNCHANGED <<ph, req, given>>
Wait == ph = "run" /\ req # "" /\ ph' = "over" /\ UNCHANGED <<req, given, waiting>>
\* a reader ends by itself
WaitRead == ph = "run" /\ ph' = "over" /\ UNCHANGED <<req, given, waiting>>
\* a reader may be cancelled before it is started and then refuses to start; waiting before the start is refused; a second start changes nothing
CancelNew == ph = "new" /\ req = "" /\ req' = "cancel" /\ UNCHANGED <<ph, given, waiting>>
BadStart == ph = "new" /\ req = "cancel" /\ ph' = "dead" /\ UNCHANGED <<req, given, waiting>>
BadWait == ph = "new" /\ UNCHANGED life
Again == ph = "run" /\ UNCHANGED life
\* what a stage says of itself: 2 is "either"
Says == [started |-> IF ph \in {"new", "dead"} THEN 0 ELSE 1, cancelled |-> IF req = "cancel" THEN 1 ELSE 0,
         running |-> IF ph = "run" /\ req = "" THEN 1 ELSE IF ph = "run" /\ req = "stop" THEN 2 ELSE 0,
         done |-> IF req = "cancel" \/ ph = "over" THEN 1 ELSE IF ph = "run" /\ req = "stop" THEN 2 ELSE 0]
\* a wait ends only after a request: then all that was given is in the result, or, when cancelled, a part of it
=============================================================================
