---------------------------- MODULE ProcessorImpl ----------------------------
(* The algorithm of concurrent_queue_processor, one step per access to shared  *)
(* data: a bounded queue (items; 0 is the wake-up token), stop and cancel      *)
(* flags, one done flag per worker. The controlling thread inserts N items,    *)
(* requests a stop or a cancellation, and waits.                               *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, Workers, Cap, Cancel
VARIABLES q, mpc, nxt, stop, canc, wpc, cur, dn, ran
vars == <<q, mpc, nxt, stop, canc, wpc, cur, dn, ran>>
Init == /\ q = << >> /\ mpc = "put" /\ nxt = 1 /\ stop = FALSE /\ canc = FALSE
        /\ wpc = [w \in Workers |-> "test"] /\ cur = [w \in Workers |-> 0] /\ dn = [w \in Workers |-> FALSE]
        /\ ran = [i \in 1..N |-> 0]
W == <<wpc, cur, dn, ran>>
MPut   == mpc = "put" /\ nxt <= N /\ Len(q) < Cap /\ q' = Append(q, nxt) /\ nxt' = nxt + 1 /\ UNCHANGED <<mpc, stop, canc, W>>
MReq   == mpc = "put" /\ nxt > N /\ mpc' = (IF Cancel THEN "stop" ELSE "wait") /\ canc' = Cancel /\ stop' = (~Cancel) /\ UNCHANGED <<q, nxt, W>>
MStop  == mpc = "stop" /\ stop' = TRUE /\ mpc' = "wait" /\ UNCHANGED <<q, nxt, canc, W>>
MLook  == mpc = "wait" /\ mpc' = (IF \A w \in Workers : dn[w] THEN "join" ELSE "size") /\ UNCHANGED <<q, nxt, stop, canc, W>>
MSize  == mpc = "size" /\ mpc' = (IF q = << >> THEN "wake" ELSE "sleep") /\ UNCHANGED <<q, nxt, stop, canc, W>>
MWake  == mpc = "wake" /\ mpc' = "sleep" /\ q' = (IF Len(q) < Cap THEN Append(q, 0) ELSE q) /\ UNCHANGED <<nxt, stop, canc, W>>
MSleep == mpc = "sleep" /\ mpc' = "wait" /\ UNCHANGED <<q, nxt, stop, canc, W>>
MJoin  == mpc = "join" /\ (\A w \in Workers : wpc[w] = "exit") /\ mpc' = "over" /\ UNCHANGED <<q, nxt, stop, canc, W>>
Main == MPut \/ MReq \/ MStop \/ MLook \/ MSize \/ MWake \/ MSleep \/ MJoin
M == <<mpc, nxt, stop, canc>>
Go(w, p) == wpc' = [wpc EXCEPT ![w] = p]
Take(w) == q # << >> /\ q' = Tail(q) /\ cur' = [cur EXCEPT ![w] = Head(q)]
WTest(w) == wpc[w] = "test" /\ Go(w, IF stop THEN "mode" ELSE "pop") /\ UNCHANGED <<q, M, cur, dn, ran>>
WPop(w)  == wpc[w] = "pop" /\ Take(w) /\ Go(w, IF Head(q) = 0 THEN "test" ELSE "work") /\ UNCHANGED <<M, dn, ran>>
WWork(w) == wpc[w] \in {"work", "last"} /\ ran' = [ran EXCEPT ![cur[w]] = @ + 1] /\ Go(w, IF wpc[w] = "work" THEN "test" ELSE "drain") /\ UNCHANGED <<q, M, cur, dn>>
WMode(w) == wpc[w] = "mode" /\ Go(w, IF canc THEN "fin" ELSE "drain") /\ UNCHANGED <<q, M, cur, dn, ran>>
WDrain(w) == wpc[w] = "drain" /\ Take(w) /\ Go(w, IF Head(q) = 0 THEN "drain" ELSE "last") /\ UNCHANGED <<M, dn, ran>>
WDrained(w) == wpc[w] = "drain" /\ q = << >> /\ Go(w, "fin") /\ UNCHANGED <<q, M, cur, dn, ran>>
WFin(w)  == wpc[w] = "fin" /\ dn' = [dn EXCEPT ![w] = TRUE] /\ Go(w, "clean") /\ UNCHANGED <<q, M, cur, ran>>
WClean(w) == wpc[w] = "clean" /\ Take(w) /\ UNCHANGED <<M, wpc, dn, ran>>
WExit(w) == wpc[w] = "clean" /\ q = << >> /\ Go(w, "exit") /\ UNCHANGED <<q, M, cur, dn, ran>>
Steps(w) == WTest(w) \/ WPop(w) \/ WWork(w) \/ WMode(w) \/ WDrain(w) \/ WDrained(w) \/ WFin(w) \/ WClean(w) \/ WExit(w)
Next == Main \/ (\E w \in Workers : Steps(w)) \/ (mpc = "over" /\ UNCHANGED vars)
\* the controlling thread sleeps between two wake-ups: a worker that finds the queue empty again and again gets to see it
Fair == WF_vars(Main) /\ \A w \in Workers : WF_vars(Steps(w)) /\ SF_vars(WDrained(w)) /\ SF_vars(WExit(w)) /\ SF_vars(WPop(w))
Spec == Init /\ [][Next]_vars /\ Fair
Once == \A i \in 1..N : ran[i] <= 1
NothingLost == (mpc = "over" /\ ~Cancel) => \A i \in 1..N : ran[i] = 1
\* an item is only thrown away after a cancellation
Discard == (\E w \in Workers : wpc[w] \in {"clean", "exit"} /\ cur[w] # 0 /\ ran[cur[w]] = 0) => canc
Ends == <>(mpc = "over")
=============================================================================
