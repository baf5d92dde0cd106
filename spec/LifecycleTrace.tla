---------------------------- MODULE LifecycleTrace ---------------------------
(* Histories of real hashers and verifiers, checked against Lifecycle.         *)
EXTENDS Lifecycle, TLC, Json, IOUtils
Hs == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES n, i, acc
Ev == Hs[n].ev
e == Ev[i]
E(k) == e[1] = k
Init == n \in DOMAIN Hs /\ i = 1 /\ acc = FALSE /\ LInit
Step == /\ i <= Len(Ev) /\ i' = i + 1 /\ UNCHANGED <<n, acc>>
        /\ \/ E("call") /\ Call(e[2])
           \/ E("return") /\ Return(e[2], e[3] = 1)
           \/ E("raise") /\ Raise(e[2], e[3] = 1)
           \/ E("poll") /\ Poll(Hs[n].t, e[2], e[3], e[4], e[5], e[6])
           \/ E("state") /\ Query(e[2], e[3], e[4], e[5])
Accept == i = Len(Ev) + 1 /\ op = "" /\ ~acc /\ TLCSet(n, TRUE) /\ acc' = TRUE /\ UNCHANGED <<n, i, lvars>>
Spec == Init /\ [][Step \/ Accept]_<<n, i, acc, lvars>>
ASSUME \A k \in DOMAIN Hs : TLCSet(k, FALSE)
Post == LET bad == { k \in DOMAIN Hs : TLCGet(k) # TRUE } IN PrintT("REJECTED " \o ToJson(bad))
=============================================================================
