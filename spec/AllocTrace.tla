------------------------------ MODULE AllocTrace -----------------------------
(* Recorded request sequences. Events: <<"alloc", i, lo, hi, mod>>,             *)
(* <<"none", i>> (no elements requested), <<"error", i, huge>> (refused),       *)
(* <<"free", i, intact>>                                                       *)
EXTENDS Alloc, TLC, Json, IOUtils
Hs == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES n, k, acc
Ev == Hs[n].ev
Init == n \in DOMAIN Hs /\ k = 1 /\ acc = FALSE /\ live = << >>
E(x) == Ev[k][1] = x
Step == /\ k <= Len(Ev) /\ k' = k + 1 /\ UNCHANGED <<n, acc>>
        /\ \/ E("alloc") /\ Allocate(Ev[k][2], Ev[k][3], Ev[k][4], Ev[k][5])
           \/ E("none") /\ Nothing(Ev[k][2])
           \/ E("error") /\ Ev[k][3] = 1 /\ Nothing(Ev[k][2])     \* only requests too large are refused
           \/ E("free") /\ Ev[k][3] = 1 /\ Free(Ev[k][2])         \* contents intact until freed
Accept == k = Len(Ev) + 1 /\ ~acc /\ TLCSet(n, TRUE) /\ acc' = TRUE /\ UNCHANGED <<n, k, live>>
Spec == Init /\ [][Step \/ Accept]_<<n, k, acc, live>>
ASSUME \A j \in DOMAIN Hs : TLCSet(j, FALSE)
Post == LET bad == { j \in DOMAIN Hs : TLCGet(j) # TRUE } IN PrintT("REJECTED " \o ToJson(bad))
=============================================================================
