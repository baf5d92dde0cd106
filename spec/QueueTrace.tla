----------------------------- MODULE QueueTrace -----------------------------
(* Linearizability of histories recorded from the real concurrent_queue.      *)
(* A history is [cap, ev, stuck]: ev is a sequence of events                  *)
(* <<thread, "inv"|"res", op, value>>; stuck tells that the run ended because  *)
(* every thread that had not finished was blocked.                             *)
(* A history is accepted iff internal linearization steps exist that explain   *)
(* every result, and - when stuck - every operation left pending is disabled   *)
(* in the abstract state reached (a blocked call really has to wait).          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, QueueADT

Hs == JsonDeserialize(IOEnv.TRACE_FILE)
CONSTANT Liveness          \* TRUE: also demand that stuck calls are disabled

VARIABLES h, i, q, cap, pend
vars == <<h, i, q, cap, pend>>

Threads(k) == { Hs[k].ev[j][1] : j \in DOMAIN Hs[k].ev }
Idle == [st |-> "idle"]

Init == /\ h \in DOMAIN Hs
        /\ i = 1
        /\ q = <<>>
        /\ cap = Hs[h].cap
        /\ pend = [t \in Threads(h) |-> Idle]

Ev == Hs[h].ev

Invoke == /\ i <= Len(Ev)
          /\ Ev[i][2] = "inv"
          /\ pend[Ev[i][1]].st = "idle"
          /\ pend' = [pend EXCEPT ![Ev[i][1]] = [st |-> "wait", op |-> Ev[i][3], arg |-> Ev[i][4]]]
          /\ i' = i + 1
          /\ UNCHANGED <<h, q, cap>>

Linearize(t) == /\ i <= Len(Ev) + 1
                /\ pend[t].st = "wait"
                /\ \E r \in Apply(q, cap, pend[t].op, pend[t].arg) :
                      /\ q' = r[1]
                      /\ cap' = r[2]
                      /\ pend' = [pend EXCEPT ![t] = [st |-> "lin", ret |-> r[3]]]
                /\ UNCHANGED <<h, i>>

Return == /\ i <= Len(Ev)
          /\ Ev[i][2] = "res"
          /\ LET t == Ev[i][1] IN
                /\ pend[t].st = "lin"
                /\ pend[t].ret = Ev[i][4]
                /\ pend' = [pend EXCEPT ![t] = Idle]
          /\ i' = i + 1
          /\ UNCHANGED <<h, q, cap>>

\* the calls left pending at the end of a stuck run
Blocked(t) == pend[t].st = "wait" /\ Apply(q, cap, pend[t].op, pend[t].arg) = {}
AtEnd == /\ i = Len(Ev) + 1
         /\ (Liveness /\ Hs[h].stuck) => \A t \in DOMAIN pend : pend[t].st = "idle" \/ Blocked(t)

Accept == /\ AtEnd
          /\ TLCSet(h, TRUE)
          /\ i' = Len(Ev) + 2
          /\ q' = <<>> /\ cap' = 0 /\ pend' = << >> /\ h' = h

Next == Invoke \/ Return \/ Accept \/ \E t \in DOMAIN pend : Linearize(t)
Spec == Init /\ [][Next]_vars

ASSUME \A k \in DOMAIN Hs : TLCSet(k, FALSE)
Post == LET bad == { k \in DOMAIN Hs : TLCGet(k) # TRUE } IN
        PrintT("REJECTED " \o ToJson(bad))
=============================================================================
