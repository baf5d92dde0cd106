--------------------------- MODULE ProcessorModel ----------------------------
(* Sanity of Processor: what its transitions allow, for few items and workers. *)
EXTENDS Processor, TLC
CONSTANTS Items, N
VARIABLE ran      \* how often the function ran on each item
Init == PInit /\ ran = [i \in Items |-> 0]
Next == \/ \E i \in Items : Put(i) /\ fl = {} /\ UNCHANGED ran
        \/ \E i \in Items : i \in DOMAIN it /\ i \notin due /\ PutRet(i) /\ UNCHANGED ran
        \/ \E i \in Items : Work(i, N) /\ ran' = [ran EXCEPT ![i] = @ + 1]
        \/ \E i \in Items : Worked(i) /\ UNCHANGED ran
        \/ (Start \/ Started \/ Wait \/ Waited \/ Destroy \/ Destroyed) /\ UNCHANGED ran
        \/ \E r \in {"stop", "cancel"} : ph # "over" /\ Request(r) /\ UNCHANGED ran
Spec == Init /\ [][Next]_<<it, due, ph, fl, pend, ran>>
Once == \A i \in Items : ran[i] <= 1
Parallel == Cardinality(Working) <= N
NothingLost == (ph = "over" /\ "cancel" \notin fl /\ \E i \in Items : ran[i] > 0) => \A i \in due : ran[i] = 1
Idle == ph = "over" => Working = {}
=============================================================================
