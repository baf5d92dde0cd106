------------------------------- MODULE Hasher --------------------------------
(* Incremental hashers. A hasher accumulates the parts it is given; finalizing *)
(* yields the digest of their concatenation and leaves the hasher as new.      *)
(* A digest is represented by the sequence of parts it was computed from, so   *)
(* a result that mixes in anything else, from earlier or from another hasher,  *)
(* is another value.                                                           *)
EXTENDS Naturals, Sequences
VARIABLE hs           \* live hashers: id -> parts so far
New(k)         == k \notin DOMAIN hs /\ hs' = [j \in DOMAIN hs \union {k} |-> IF j = k THEN << >> ELSE hs[j]]
Update(k, c)   == k \in DOMAIN hs /\ hs' = [hs EXCEPT ![k] = Append(@, c)]
Finalize(k, r) == k \in DOMAIN hs /\ r = hs[k] /\ hs' = [hs EXCEPT ![k] = << >>]
Reset(k)       == k \in DOMAIN hs /\ hs' = [hs EXCEPT ![k] = << >>]
Destroy(k)     == k \in DOMAIN hs /\ hs' = [j \in DOMAIN hs \ {k} |-> hs[j]]
=============================================================================
