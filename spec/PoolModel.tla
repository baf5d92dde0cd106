------------------------------ MODULE PoolModel ------------------------------
(* Closed model of Pool for TLC: bounded requests and shares.                  *)
EXTENDS Pool
CONSTANTS Cap, Initial, MaxGets
VARIABLES gets, shares
mvars == <<pvars, gets, shares>>
Init == PoolInit(Cap) /\ gets = 0 /\ shares = 0
Stock == /\ Cardinality(Ids) < Initial /\ gets = 0 /\ pool.get = "idle"
         /\ Create(Cardinality(Ids) + 1, TRUE) /\ UNCHANGED <<gets, shares>>
Started == Cardinality(Ids) >= Initial
Next == \/ Stock
        \/ Started /\ gets < MaxGets /\ Request /\ gets' = gets + 1 /\ UNCHANGED shares
        \/ Avail = {} /\ Create(Cardinality(Ids) + 1, FALSE) /\ UNCHANGED <<gets, shares>>
        \/ \E o \in Ids : Lend(o) /\ UNCHANGED <<gets, shares>>
        \/ \E o \in Ids : shares < 2 /\ Share(o) /\ shares' = shares + 1 /\ UNCHANGED gets
        \/ \E o \in Ids : (Drop(o) \/ Recycle(o) \/ Destroy(o)) /\ UNCHANGED <<gets, shares>>
        \/ Started /\ Close /\ UNCHANGED <<gets, shares>>
Serve == \E o \in Ids : Lend(o) /\ UNCHANGED <<gets, shares>>
Spec == /\ Init /\ [][Next]_mvars
        /\ SF_mvars(Serve)
        /\ WF_mvars(Avail = {} /\ Create(Cardinality(Ids) + 1, FALSE) /\ UNCHANGED <<gets, shares>>)
        /\ \A o \in 1 .. Cap : WF_mvars(o \in Ids /\ Drop(o) /\ UNCHANGED <<gets, shares>>)
        /\ \A o \in 1 .. Cap : WF_mvars(o \in Ids /\ (Recycle(o) \/ Destroy(o)) /\ UNCHANGED <<gets, shares>>)
\* an object is lent to one holder: it goes from lent back to lent only through the recycling policy
OneHolder == [][\A o \in Ids : obj[o] = "lent" => obj'[o] \in {"lent", "dropping"}]_mvars
\* when holders let go, requests are served; after the pool is closed nothing leaks
Served == (pool.get = "busy" /\ Cap > 0) ~> (pool.get = "idle")
NoLeak == (~pool.alive) ~> (\A o \in Ids : obj[o] = "dead")
=============================================================================
