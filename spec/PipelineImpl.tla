---------------------------- MODULE PipelineImpl -----------------------------
(* The threads of a storage_hasher (or, without checksums, a storage_verifier),*)
(* one step per access to shared data: a reader that takes buffers from a pool *)
(* of C and puts N chunks in the bounded queues of the chunk hashers ("h") and *)
(* of the checksum hasher ("c"), and a writer ("w") fed through an unbounded   *)
(* queue. Chunk 0 is the wake-up token. The controlling thread waits, or       *)
(* cancels at any moment; both join the parts in the order of the data flow.   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, C, Hashers, Sums
VARIABLES rpc, rn, rcanc, free, refs,       \* reader and pool
          q, stop, canc,                    \* per kind of consumer
          wpc, cur, dn,                     \* per worker
          mpc, mk, mode,                    \* controlling thread
          seen, written                     \* order of the chunks of the checksum, times each chunk was written
vars == <<rpc, rn, rcanc, free, refs, q, stop, canc, wpc, cur, dn, mpc, mk, mode, seen, written>>
Kinds == {"h", "w"} \cup (IF Sums THEN {"c"} ELSE {})
Workers == Hashers \cup {"W"} \cup (IF Sums THEN {"S"} ELSE {})
Kind(w) == IF w = "W" THEN "w" ELSE IF w = "S" THEN "c" ELSE "h"
Of(k) == {w \in Workers : Kind(w) = k}
Room(k) == k = "w" \/ Len(q[k]) < C
Init == /\ rpc = "get" /\ rn = 1 /\ rcanc = FALSE /\ free = C /\ refs = [i \in 1..N |-> 0]
        /\ q = [k \in Kinds |-> << >>] /\ stop = [k \in Kinds |-> FALSE] /\ canc = [k \in Kinds |-> FALSE]
        /\ wpc = [w \in Workers |-> "test"] /\ cur = [w \in Workers |-> 0] /\ dn = [w \in Workers |-> FALSE]
        /\ mpc = "go" /\ mk = "h" /\ mode = "wait" /\ seen = << >> /\ written = [i \in 1..N |-> 0]
RV == <<rpc, rn, free, refs>>
WV == <<wpc, cur, dn, seen, written>>
MV == <<mpc, mk, mode>>
CV == <<stop, canc>>
Release(i) == IF refs[i] = 1 THEN refs' = [refs EXCEPT ![i] = 0] /\ free' = free + 1 ELSE refs' = [refs EXCEPT ![i] = @ - 1] /\ UNCHANGED free
\* reader
RGet  == rpc = "get" /\ free > 0 /\ free' = free - 1 /\ rpc' = "look" /\ UNCHANGED <<rn, rcanc, refs, q, CV, WV, MV>>
RLook == rpc = "look" /\ (IF rcanc \/ rn > N THEN rpc' = "exit" /\ free' = free + 1 /\ UNCHANGED refs ELSE rpc' = "h" /\ refs' = [refs EXCEPT ![rn] = 1] /\ UNCHANGED free)
           /\ UNCHANGED <<rn, rcanc, q, CV, WV, MV>>
RPut(k) == rpc = k /\ k \in {"h", "c"} /\ Room(k) /\ q' = [q EXCEPT ![k] = Append(@, rn)] /\ refs' = [refs EXCEPT ![rn] = @ + 1]
           /\ rpc' = (IF k = "h" /\ Sums THEN "c" ELSE "drop") /\ UNCHANGED <<rn, rcanc, free, CV, WV, MV>>
RDrop == rpc = "drop" /\ Release(rn) /\ rn' = rn + 1 /\ rpc' = "get" /\ UNCHANGED <<rcanc, q, CV, WV, MV>>
Reader == RGet \/ RLook \/ RPut("h") \/ (Sums /\ RPut("c")) \/ RDrop
\* consumers
Go(w, p) == wpc' = [wpc EXCEPT ![w] = p]
Take(w) == LET k == Kind(w) IN q[k] # << >> /\ q' = [q EXCEPT ![k] = Tail(@)] /\ cur' = [cur EXCEPT ![w] = Head(q[k])]
Work(w) == LET i == cur[w] IN LET k == Kind(w) IN
   CASE k = "h" -> q' = [q EXCEPT !["w"] = Append(@, i)] /\ Release(i) /\ UNCHANGED <<seen, written>>
     [] k = "c" -> seen' = Append(seen, i) /\ Release(i) /\ UNCHANGED <<q, written>>
     [] OTHER -> written' = [written EXCEPT ![i] = @ + 1] /\ UNCHANGED <<q, seen, refs, free>>
Other == <<rpc, rn, rcanc, CV, MV>>
WTest(w) == wpc[w] = "test" /\ Go(w, IF stop[Kind(w)] THEN "mode" ELSE "pop") /\ UNCHANGED <<free, refs, q, cur, dn, seen, written, Other>>
WPop(w)  == wpc[w] = "pop" /\ Take(w) /\ Go(w, IF Head(q[Kind(w)]) = 0 THEN "mode" ELSE "work") /\ UNCHANGED <<free, refs, dn, seen, written, Other>>
WWork(w) == wpc[w] \in {"work", "last"} /\ Work(w) /\ Go(w, IF wpc[w] = "work" THEN "test" ELSE "drain") /\ UNCHANGED <<cur, dn, Other>>
WMode(w) == wpc[w] = "mode" /\ Go(w, IF canc[Kind(w)] THEN "fin" ELSE "drain") /\ UNCHANGED <<free, refs, q, cur, dn, seen, written, Other>>
WDrain(w) == wpc[w] = "drain" /\ Take(w) /\ Go(w, IF Head(q[Kind(w)]) = 0 THEN "fin" ELSE "last") /\ UNCHANGED <<free, refs, dn, seen, written, Other>>
WDrained(w) == wpc[w] = "drain" /\ q[Kind(w)] = << >> /\ Go(w, "fin") /\ UNCHANGED <<free, refs, q, cur, dn, seen, written, Other>>
WFin(w)  == wpc[w] = "fin" /\ dn' = [dn EXCEPT ![w] = TRUE] /\ Go(w, "exit") /\ UNCHANGED <<free, refs, q, cur, seen, written, Other>>
Steps(w) == WTest(w) \/ WPop(w) \/ WWork(w) \/ WMode(w) \/ WDrain(w) \/ WDrained(w) \/ WFin(w)
\* controlling thread
MKeep == <<RV, WV>>
MGo   == mpc = "go" /\ mode' \in {"wait", "cancel"} /\ rcanc' = (mode' = "cancel") /\ mpc' = "join" /\ UNCHANGED <<MKeep, q, CV, mk>>
MJoin == mpc = "join" /\ rpc = "exit" /\ mpc' = "req" /\ mk' = "h" /\ UNCHANGED <<MKeep, q, CV, rcanc, mode>>
\* the request to a kind of consumer: cancellation sets two flags, one after the other
NextReq(k) == IF k = "h" /\ Sums THEN <<"req", "c">> ELSE IF k = "w" THEN <<"look", "w">> ELSE <<"look", "h">>
MReq  == mpc = "req" /\ (IF mode = "cancel" THEN canc' = [canc EXCEPT ![mk] = TRUE] /\ mpc' = "stop" /\ UNCHANGED <<stop, mk>>
                         ELSE stop' = [stop EXCEPT ![mk] = TRUE] /\ mpc' = NextReq(mk)[1] /\ mk' = NextReq(mk)[2] /\ UNCHANGED canc)
           /\ UNCHANGED <<MKeep, q, rcanc, mode>>
MStop == mpc = "stop" /\ stop' = [stop EXCEPT ![mk] = TRUE] /\ mpc' = NextReq(mk)[1] /\ mk' = NextReq(mk)[2] /\ UNCHANGED <<MKeep, q, canc, rcanc, mode>>
MLook == mpc = "look" /\ mpc' = (IF \A w \in Of(mk) : dn[w] THEN "reap" ELSE "size") /\ UNCHANGED <<MKeep, q, CV, rcanc, mk, mode>>
MSize == mpc = "size" /\ mpc' = (IF q[mk] = << >> THEN "wake" ELSE "look") /\ UNCHANGED <<MKeep, q, CV, rcanc, mk, mode>>
MWake == mpc = "wake" /\ mpc' = "look" /\ q' = (IF Room(mk) THEN [q EXCEPT ![mk] = Append(@, 0)] ELSE q) /\ UNCHANGED <<MKeep, CV, rcanc, mk, mode>>
MReap == mpc = "reap" /\ (\A w \in Of(mk) : wpc[w] = "exit")
           /\ (IF mk = "h" /\ Sums THEN mpc' = "look" /\ mk' = "c" ELSE IF mk # "w" THEN mpc' = "req" /\ mk' = "w" ELSE mpc' = "over" /\ mk' = mk)
           /\ UNCHANGED <<MKeep, q, CV, rcanc, mode>>
Main == MGo \/ MJoin \/ MReq \/ MStop \/ MLook \/ MSize \/ MWake \/ MReap
Next == Reader \/ Main \/ (\E w \in Workers : Steps(w)) \/ (mpc = "over" /\ UNCHANGED vars)
Fair == WF_vars(Reader) /\ WF_vars(Main) /\ \A w \in Workers : WF_vars(Steps(w)) /\ SF_vars(WPop(w)) /\ SF_vars(WDrained(w))
Spec == Init /\ [][Next]_vars /\ Fair
SafeSpec == Init /\ [][Next]_vars
\* every chunk is hashed and written at most once, and exactly once when the work was not cancelled
Once == \A i \in 1..N : written[i] <= 1
Complete == (mpc = "over" /\ mode = "wait") => /\ \A i \in 1..N : written[i] = 1
                                               /\ Sums => seen = [i \in 1..N |-> i]
InOrder == \A i \in DOMAIN seen : seen[i] = i
\* buffers are neither lost nor shared by two chunks
Buffers == free + Cardinality({i \in 1..N : refs[i] > 0}) + (IF rpc = "look" THEN 1 ELSE 0) = C
\* nothing runs any more at the end
Clean == mpc = "over" => rpc = "exit" /\ \A w \in Workers : wpc[w] = "exit"
Ends == <>(mpc = "over")
=============================================================================
