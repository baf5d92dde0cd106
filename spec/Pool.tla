-------------------------------- MODULE Pool --------------------------------
(* The object pool: objects are created on demand up to a capacity, lent,      *)
(* released by whoever drops the last reference, recycled and lent again.      *)
(* One thread requests objects (as the pool documents), any thread releases.   *)
EXTENDS Naturals, FiniteSets, Sequences

VARIABLES obj,      \* function id -> state of every object created so far
          refs,     \* id -> references not dropped yet
          pool      \* [cap, alive, get]: get \in {"idle", "busy", "fresh"}
pvars == <<obj, refs, pool>>

States == {"free",        \* in the pool
           "fresh",       \* created for the request in progress
           "lent",        \* held
           "dropping",    \* last reference dropped, not recycled yet
           "dead"}
Ids == DOMAIN obj
Count(s) == Cardinality({o \in Ids : obj[o] \in s})
Avail == {o \in Ids : obj[o] = "free"}

Extend(f, x, v) == [y \in DOMAIN f \union {x} |-> IF y = x THEN v ELSE f[y]]

PoolInit(c) == /\ obj = << >> /\ refs = << >>
               /\ pool = [cap |-> c, alive |-> TRUE, get |-> "idle"]

\* an object is created: for the initial stock or by a request; never more than cap in all
Create(o, initial) ==
    /\ o \notin Ids
    /\ Cardinality(Ids) < pool.cap
    /\ pool.alive
    /\ IF initial THEN pool.get = "idle" ELSE pool.get = "busy"
    /\ obj' = Extend(obj, o, IF initial THEN "free" ELSE "fresh")
    /\ refs' = Extend(refs, o, 0)
    /\ pool' = IF initial THEN pool ELSE [pool EXCEPT !.get = "fresh"]

Request == /\ pool.alive /\ pool.get = "idle"
           /\ pool' = [pool EXCEPT !.get = "busy"]
           /\ UNCHANGED <<obj, refs>>

\* a request returns an object nobody holds: the one created for it or a free one
Lend(o) == /\ o \in Ids
           /\ \/ pool.get = "fresh" /\ obj[o] = "fresh"
              \/ pool.get = "busy" /\ obj[o] = "free"
           /\ obj' = [obj EXCEPT ![o] = "lent"]
           /\ refs' = [refs EXCEPT ![o] = 1]
           /\ pool' = [pool EXCEPT !.get = "idle"]

\* a request has to wait only when everything is lent (or on its way back)
MustWait == pool.get = "busy" /\ Avail = {} /\ Cardinality(Ids) >= pool.cap

Share(o) == /\ o \in Ids /\ obj[o] = "lent"
            /\ refs' = [refs EXCEPT ![o] = @ + 1]
            /\ UNCHANGED <<obj, pool>>

\* a holder drops a reference; the last one starts the return
Drop(o) == /\ o \in Ids /\ obj[o] = "lent" /\ refs[o] > 0
           /\ refs' = [refs EXCEPT ![o] = @ - 1]
           /\ obj' = [obj EXCEPT ![o] = IF refs[o] = 1 THEN "dropping" ELSE "lent"]
           /\ UNCHANGED pool

\* the recycling policy runs once per return, before the object is available again
Recycle(o) == /\ o \in Ids /\ obj[o] = "dropping"
              /\ obj' = [obj EXCEPT ![o] = "free"]
              /\ UNCHANGED <<refs, pool>>

\* after the pool is gone, free and returned objects are destroyed; never a lent one
Destroy(o) == /\ o \in Ids /\ ~pool.alive /\ obj[o] \in {"free", "dropping"}
              /\ obj' = [obj EXCEPT ![o] = "dead"]
              /\ UNCHANGED <<refs, pool>>

Close == /\ pool.alive /\ pool.get = "idle"
         /\ pool' = [pool EXCEPT !.alive = FALSE]
         /\ UNCHANGED <<obj, refs>>

----------------------------------------------------------------------------
PoolInv == /\ Cardinality(Ids) <= pool.cap
           /\ \A o \in Ids : obj[o] \in States
           /\ \A o \in Ids : (refs[o] > 0) <=> (obj[o] = "lent")
           /\ Count({"fresh"}) <= 1
=============================================================================
