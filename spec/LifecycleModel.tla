---------------------------- MODULE LifecycleModel ---------------------------
EXTENDS Lifecycle
T == [read |-> 3, done |-> 3, hmin |-> 3, hmax |-> 3, sizes |-> <<1, 0, 2>>]
Next == \/ \E o \in Ops : Call(o) \/ \E f \in BOOLEAN : Return(o, f) \/ Raise(o, f)
        \/ \E nr, nh, nd \in 0..4, nf \in 0..3, fb \in 0..3 : Poll(T, nr, nh, nd, nf, fb)
        \/ \E a, b, c, e \in 0..1 : Query(a, b, c, e)
Spec == LInit /\ [][Next]_lvars
Bounded == r <= T.read /\ h <= T.hmax /\ d <= T.done /\ fi < 3
Monotone == [][r' >= r /\ h' >= h /\ d' >= d /\ fi' >= fi]_lvars
\* done and cancelled are final, and nothing is counted before the start
Final == [][(ph \in {"done", "cancelled"} => ph' \in {ph, "gone"}) /\ (ph = "gone" => UNCHANGED lvars)]_lvars
Unstarted == ph = "new" => r = 0 /\ h = 0 /\ d = 0
=============================================================================
