------------------------------ MODULE AllocModel -----------------------------
(* Enumerates request sequences (types and counts are names the harness knows) *)
EXTENDS Alloc, TLC, Json
CONSTANTS Types, Counts, MaxLen
VARIABLES h, top     \* requests so far; first address never used (any placement is a refinement of this one)
Init == h = << >> /\ live = << >> /\ top = 0
Huge == {"max", "over", "all"}
Next == /\ Len(h) < MaxLen
        /\ \/ \E t \in Types, c \in Counts : LET i == Len(h) + 1 IN
                /\ IF c = "0" \/ c \in Huge THEN Nothing(i) /\ top' = top
                   ELSE Allocate(i, top, top + 1, 0) /\ top' = top + 1
                /\ h' = Append(h, <<"a", t, c>>)
           \/ \E i \in Ids : Free(i) /\ h' = Append(h, <<"f", ToString(i), "">>) /\ top' = top
Spec == Init /\ [][Next]_<<h, live, top>>
Emit == Len(h) = MaxLen => PrintT("SEQ " \o ToJson(h))
=============================================================================
