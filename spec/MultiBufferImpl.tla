---------------------------- MODULE MultiBufferImpl ---------------------------
(* How the jobs are carried out on a machine with Lanes lanes (as in Intel's    *)
(* ISA-L): a submitted job occupies a lane until the machine returns it, which  *)
(* happens when all lanes are taken or when it is flushed, in any order.        *)
(* Continuing a job waits until the machine has returned it; discarding a job   *)
(* waits likewise, or else the machine would go on using it.                    *)
(* Checked: every digest is the one MultiBuffer.tla asks for, the machine never *)
(* refuses a job and never holds a discarded one, and no call waits forever.    *)
EXTENDS MultiBuffer, FiniteSets, TLC
CONSTANTS Parts, MaxJobs, MaxLen, Lanes, Short        \* Short: parts shorter than a block
VARIABLES jobs,    \* what the caller asked for
          ctx,     \* per job: [id, st, got, inp, last]
          lane,    \* ids in lanes, with the context as the machine knows it
          call,    \* the call being carried out, or <<>>
          n, next, bad
vars == <<jobs, ctx, lane, call, n, next, bad>>
Fresh(k) == [id |-> k, st |-> "complete", got |-> << >>, inp |-> 0, last |-> FALSE]
Init == jobs = << >> /\ ctx = << >> /\ lane = {} /\ call = << >> /\ n = 0 /\ next = 1 /\ bad = {}
Calls == {op \in {<<"z", k>> : k \in 0..MaxJobs} \union {<<"r">>}
            \union (IF Len(jobs) < MaxJobs THEN {<<k, c>> : k \in {"E", "F"}, c \in Parts} ELSE {})
            \union {<<k, j, c>> : k \in {"e", "f", "u", "l"}, j \in 1..MaxJobs, c \in Parts}
            \union {<<"t", j>> : j \in 1..MaxJobs} : Legal(jobs, op)}
Begin == /\ call = << >> /\ n < MaxLen
         /\ \E op \in Calls : call' = op
         /\ n' = n + 1 /\ UNCHANGED <<jobs, ctx, lane, next, bad>>
Work(x) == [x EXCEPT !.st = IF x.last THEN "complete" ELSE "idle", !.got = Append(@, x.inp), !.inp = 0]
Return(cs, k) == [i \in DOMAIN cs |-> IF cs[i].id = k THEN Work(cs[i]) ELSE cs[i]]
\* the machine finishes one job
Flush == /\ lane # {}
         /\ \E k \in lane : lane' = lane \ {k} /\ ctx' = Return(ctx, k)
         /\ UNCHANGED <<jobs, call, n, next, bad>>
Submit(cs, i, c, first, last) ==
  LET x == cs[i] IN
  IF x.st = "processing" \/ (x.st = "complete" /\ ~first)
  THEN bad' = bad \union {"refused"} /\ ctx' = cs /\ lane' = lane
  ELSE LET y == [x EXCEPT !.st = "processing", !.got = IF first THEN << >> ELSE @, !.inp = c, !.last = last]
           c1 == [cs EXCEPT ![i] = y]
       IN /\ bad' = bad
          /\ IF Lanes = 0 \/ (c \in Short /\ ~last) THEN ctx' = Return(c1, x.id) /\ lane' = lane
             ELSE IF Cardinality(lane) + 1 >= Lanes
             THEN \E k \in lane \union {x.id} : lane' = (lane \union {x.id}) \ {k} /\ ctx' = Return(c1, k)
             ELSE ctx' = c1 /\ lane' = lane \union {x.id}
End == jobs' = Step(jobs, call) /\ call' = << >> /\ UNCHANGED n
Dropped == {i \in DOMAIN ctx : i > call[2]}
Do ==
  /\ call # << >>
  /\ CASE call[1] = "r" -> ctx' = << >> /\ lane' = {} /\ UNCHANGED <<next, bad>> /\ End        \* the machine is set up anew
       [] call[1] = "z" ->
            IF \E i \in Dropped : ctx[i].st = "processing" THEN Flush
            ELSE /\ ctx' = [i \in 1..call[2] |-> IF i \in DOMAIN ctx THEN ctx[i] ELSE Fresh(next + i)]
                 /\ next' = next + MaxJobs + 1 /\ UNCHANGED <<lane, bad>> /\ End
       [] call[1] \in {"E", "F"} -> Submit(Append(ctx, Fresh(next)), Len(ctx) + 1, call[2], TRUE, call[1] = "E") /\ next' = next + 1 /\ End
       [] call[1] \in {"e", "f"} -> Submit(ctx, call[2], call[3], TRUE, call[1] = "e") /\ UNCHANGED next /\ End
       [] call[1] \in {"u", "l"} -> IF ctx[call[2]].st = "processing" THEN Flush
                                    ELSE Submit(ctx, call[2], call[3], FALSE, call[1] = "l") /\ UNCHANGED next /\ End
       [] OTHER -> IF ctx[call[2]].st # "complete" THEN Flush
                   ELSE bad' = bad \union (IF ctx[call[2]].got = jobs[call[2]].p THEN {} ELSE {"digest"}) /\ UNCHANGED <<ctx, lane, next>> /\ End
Rest == call = << >> /\ n = MaxLen /\ UNCHANGED vars
Next == Begin \/ Do \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Do)
Right == bad = {}
Held == lane \subseteq {ctx[i].id : i \in DOMAIN ctx}
Returns == [](call # << >> => <>(call = << >>))
=============================================================================
