----------------------------- MODULE Processor ------------------------------
(* A pool of workers running one function on the items of a queue.             *)
EXTENDS Naturals, FiniteSets, Sequences
VARIABLES it,        \* item -> "putting" | "queued" | "working" | "done"
          due,       \* items whose insertion returned before any stop or cancellation was requested
          ph,        \* "new" | "run" | "over"  (over: a wait has returned, or it was destroyed)
          fl,        \* requests made: subset of {"stop", "cancel"}
          pend       \* pending controlling calls: subset of {"start", "wait", "destroy"}
pvars == <<it, due, ph, fl, pend>>
With(f, i, v) == [j \in DOMAIN f \union {i} |-> IF j = i THEN v ELSE f[j]]
Working == {i \in DOMAIN it : it[i] = "working"}
Empty  == [i \in {} |-> ""]
PInit == it = Empty /\ due = {} /\ ph = "new" /\ fl = {} /\ pend = {}
Put(i)    == i \notin DOMAIN it /\ it' = With(it, i, "putting") /\ UNCHANGED <<due, ph, fl, pend>>
PutRet(i) == /\ i \in DOMAIN it
             /\ it' = IF it[i] = "putting" THEN With(it, i, "queued") ELSE it
             /\ due' = IF fl = {} THEN due \union {i} ELSE due
             /\ UNCHANGED <<ph, fl, pend>>
\* the function is only run between the start and the end, on at most n items at a time, once per item
Work(i, n) == /\ ph = "run" /\ i \in DOMAIN it /\ it[i] \in {"putting", "queued"}
              /\ Cardinality(Working) < n
              /\ it' = With(it, i, "working") /\ UNCHANGED <<due, ph, fl, pend>>
Worked(i) == /\ ph = "run" /\ i \in Working /\ it' = With(it, i, "done") /\ UNCHANGED <<due, ph, fl, pend>>
Start   == ph = "new" /\ ph' = "run" /\ pend' = pend \union {"start"} /\ UNCHANGED <<it, due, fl>>
Started == "start" \in pend /\ pend' = pend \ {"start"} /\ UNCHANGED <<it, due, ph, fl>>
Request(r) == fl' = fl \union {r} /\ UNCHANGED <<it, due, ph, pend>>
Finished == Working = {} /\ ("cancel" \in fl \/ \A i \in due : it[i] = "done")
Wait    == "wait" \notin pend /\ pend' = pend \union {"wait"} /\ UNCHANGED <<it, due, ph, fl>>
\* waiting for a processor that was not started returns at once
Waited  == /\ "wait" \in pend /\ pend' = pend \ {"wait"}
           /\ IF ph = "run" THEN fl # {} /\ Finished /\ ph' = "over" ELSE ph' = ph
           /\ UNCHANGED <<it, due, fl>>
Destroy   == pend = {} /\ pend' = {"destroy"} /\ fl' = fl \union {"stop"} /\ UNCHANGED <<it, due, ph>>
Destroyed == /\ "destroy" \in pend /\ pend' = {} /\ ph' = "over" /\ (ph = "run" => Finished) /\ UNCHANGED <<it, due, fl>>
\* nothing more can happen and nobody waits for what has been promised
Quiet == /\ ph = "run" => ("wait" \notin pend \/ fl = {})
         /\ "destroy" \notin pend /\ "start" \notin pend
         /\ (ph = "run" /\ fl = {}) => \A i \in DOMAIN it : it[i] = "done"
=============================================================================
