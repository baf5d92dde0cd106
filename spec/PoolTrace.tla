------------------------------ MODULE PoolTrace ------------------------------
(* Histories of the real pool validated against Pool. Events, in real order:   *)
(*  <<"new",o>> stock object, <<"make",o>> object made by a request,            *)
(*  <<"get">> request, <<"got",o>>, <<"share",o>>, <<"drop",o,k>> reference about*)
(*  to be dropped, <<"dropped",o,k>>, <<"recycle",o>>, <<"kill",o>>, <<"close">>, *)
(*  <<"size">>, <<"sized",n>>, <<"end">> (all references and the pool are gone) *)
EXTENDS Pool, TLC, Json, IOUtils
Hs == JsonDeserialize(IOEnv.TRACE_FILE)
CONSTANT Liveness
VARIABLES h, i, acc,
          toks,      \* object -> drops of its current loan that have not returned
          settled,   \* free objects whose return has completed
          lo         \* their number when the size query in progress began
tvars == <<pvars, h, i, acc, toks, settled, lo>>
Ev == Hs[h].ev
Init == h \in DOMAIN Hs /\ i = 1 /\ acc = FALSE /\ toks = << >> /\ settled = {} /\ lo = 0 /\ PoolInit(Hs[h].cap)
E(k) == Ev[i][1] = k
LastBack == Ev[i][3] \in toks[Ev[i][2]] /\ toks[Ev[i][2]] = {Ev[i][3]}
Step == /\ i <= Len(Ev) /\ i' = i + 1 /\ UNCHANGED <<h, acc>>
        /\ \/ E("new") /\ Create(Ev[i][2], TRUE)
           \/ E("make") /\ Create(Ev[i][2], FALSE)
           \/ E("get") /\ Request
           \/ E("got") /\ Lend(Ev[i][2])
           \/ E("share") /\ Share(Ev[i][2])
           \/ E("drop") /\ Drop(Ev[i][2])
           \* when the drops of a loan have all returned the object is back (or destroyed)
           \/ E("dropped") /\ ~(LastBack /\ obj[Ev[i][2]] = "dropping") /\ UNCHANGED pvars
           \/ E("recycle") /\ Recycle(Ev[i][2])
           \/ E("kill") /\ Destroy(Ev[i][2])
           \/ E("close") /\ Close
           \/ E("size") /\ UNCHANGED pvars
           \/ E("sized") /\ Ev[i][2] >= lo /\ Ev[i][2] <= Cardinality(Avail) /\ UNCHANGED pvars
           \/ E("end") /\ (\A o \in Ids : obj[o] = "dead") /\ UNCHANGED pvars
        /\ settled' = CASE E("new") -> settled \union {Ev[i][2]}
                       [] E("got") -> settled \ {Ev[i][2]}
                       [] E("dropped") -> IF LastBack /\ obj[Ev[i][2]] = "free" THEN settled \union {Ev[i][2]} ELSE settled
                       [] OTHER -> settled
        /\ toks' = CASE E("got") -> Extend(toks, Ev[i][2], {})
                    [] E("drop") -> [toks EXCEPT ![Ev[i][2]] = @ \union {Ev[i][3]}]
                    [] E("dropped") -> [toks EXCEPT ![Ev[i][2]] = @ \ {Ev[i][3]}]
                    [] OTHER -> toks
        /\ lo' = IF E("size") THEN Cardinality(settled) ELSE lo
AtEnd == /\ i = Len(Ev) + 1
         /\ (Liveness /\ Hs[h].stuck) => MustWait
Accept == AtEnd /\ ~acc /\ TLCSet(h, TRUE) /\ acc' = TRUE /\ UNCHANGED <<h, i, pvars, toks, settled, lo>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_tvars
ASSUME \A k \in DOMAIN Hs : TLCSet(k, FALSE)
Post == LET bad == { k \in DOMAIN Hs : TLCGet(k) # TRUE } IN PrintT("REJECTED " \o ToJson(bad))
=============================================================================
