--------------------------- MODULE ProcessorTrace ----------------------------
(* Histories of real processors, checked against Processor.                    *)
EXTENDS Processor, TLC, Json, IOUtils
Hs == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES n, i, acc
Ev == Hs[n].ev
Init == n \in DOMAIN Hs /\ i = 1 /\ acc = FALSE /\ PInit
E(k) == Ev[i][1] = k
\* what the processor says of itself; between a request to stop and the return of wait it may still be running or done
RunningOk(r) == IF ph = "run" /\ "cancel" \notin fl THEN fl # {} \/ r = 1 ELSE r = 0
DoneOk(d) == IF "cancel" \in fl \/ ph = "over" THEN d = 1 ELSE (ph = "run" /\ fl # {}) \/ d = 0
State == (IF ph # "new" THEN 1 ELSE 0) + (IF "cancel" \in fl THEN 2 ELSE 0)
Step == /\ i <= Len(Ev) /\ i' = i + 1 /\ UNCHANGED <<n, acc>>
        /\ \/ E("put") /\ Put(Ev[i][2])
           \/ E("putret") /\ PutRet(Ev[i][2])
           \/ E("work") /\ Work(Ev[i][2], Hs[n].n)
           \/ E("worked") /\ Worked(Ev[i][2])
           \/ E("start") /\ Start
           \/ E("started") /\ Started
           \/ E("stop") /\ Request("stop")
           \/ E("cancel") /\ Request("cancel")
           \/ E("wait") /\ Wait
           \/ E("waited") /\ Waited
           \/ E("done") /\ Ev[i][2] = (IF ph = "over" \/ "cancel" \in fl THEN 1 ELSE 0) /\ UNCHANGED pvars
           \/ E("state") /\ Ev[i][2] = State /\ RunningOk(Ev[i][3]) /\ DoneOk(Ev[i][4]) /\ UNCHANGED pvars
           \/ E("destroy") /\ Destroy
           \/ E("destroyed") /\ Destroyed
           \/ E("end") /\ Working = {} /\ ph' = "over" /\ (ph = "run" => Finished) /\ UNCHANGED <<it, due, fl, pend>>
Accept == i = Len(Ev) + 1 /\ (Hs[n].stuck => Quiet) /\ ~acc /\ TLCSet(n, TRUE) /\ acc' = TRUE /\ UNCHANGED <<n, i, it, due, ph, fl, pend>>
Spec == Init /\ [][Step \/ Accept]_<<n, i, acc, it, due, ph, fl, pend>>
ASSUME \A k \in DOMAIN Hs : TLCSet(k, FALSE)
Post == LET bad == { k \in DOMAIN Hs : TLCGet(k) # TRUE } IN PrintT("REJECTED " \o ToJson(bad))
=============================================================================
