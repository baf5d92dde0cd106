----------------------------- MODULE HasherTrace -----------------------------
(* Histories of real hashers used by several threads, checked against Hasher.  *)
EXTENDS Hasher, TLC, Json, IOUtils
Hs == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES n, i, acc
Ev == Hs[n].ev
Init == n \in DOMAIN Hs /\ i = 1 /\ acc = FALSE /\ hs = << >>
E(k) == Ev[i][1] = k
Step == /\ i <= Len(Ev) /\ i' = i + 1 /\ UNCHANGED <<n, acc>>
        /\ \/ E("c") /\ New(Ev[i][2])
           \/ E("u") /\ Update(Ev[i][2], Ev[i][3])
           \/ E("f") /\ Finalize(Ev[i][2], Ev[i][3])
           \/ E("d") /\ Destroy(Ev[i][2])
Accept == i = Len(Ev) + 1 /\ ~Hs[n].stuck /\ ~acc /\ TLCSet(n, TRUE) /\ acc' = TRUE /\ UNCHANGED <<n, i, hs>>
Spec == Init /\ [][Step \/ Accept]_<<n, i, acc, hs>>
ASSUME \A k \in DOMAIN Hs : TLCSet(k, FALSE)
Post == LET bad == { k \in DOMAIN Hs : TLCGet(k) # TRUE } IN PrintT("REJECTED " \o ToJson(bad))
=============================================================================
