----------------------------- MODULE QueueImpl ------------------------------
(* Step-level model of concurrent_queue: one mutex, two condition variables,  *)
(* notifications issued after the unlock, spurious wake-ups possible.         *)
(* Checked: it refines the abstract queue (every step that changes the        *)
(* contents is one abstract operation), the bound and FIFO hold, and with fair *)
(* threads a call that stays enabled for ever returns (no lost wake-up).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Prog,      \* thread -> sequence of [op, arg]
          Cap0, Spurious

Threads == DOMAIN Prog
VARIABLES pc, ip, q, cap, mutex, waitE, waitF, woken, ret, done, spur, pushed, popped
vars == <<pc, ip, q, cap, mutex, waitE, waitF, woken, ret, done, spur, pushed, popped>>

Init == /\ pc = [t \in Threads |-> "idle"] /\ ip = [t \in Threads |-> 1]
        /\ q = <<>> /\ cap = Cap0 /\ mutex = 0
        /\ waitE = {} /\ waitF = {} /\ woken = {}
        /\ ret = [t \in Threads |-> -1] /\ done = [t \in Threads |-> <<>>] /\ spur = Spurious
        /\ pushed = <<>> /\ popped = <<>>

Op(t) == Prog[t][ip[t]]
Finished(t) == ip[t] > Len(Prog[t])

Lock(t) == /\ pc[t] = "idle" /\ ~Finished(t) /\ mutex = 0
           /\ mutex' = t /\ pc' = [pc EXCEPT ![t] = "crit"]
           /\ UNCHANGED <<ip, q, cap, waitE, waitF, woken, ret, done, spur, pushed, popped>>

Room == Len(q) < cap
Unlocked(t, next) == mutex' = 0 /\ pc' = [pc EXCEPT ![t] = next]

\* the critical section: test the predicate, wait or take effect and unlock
Crit(t) ==
  /\ pc[t] = "crit" /\ mutex = t
  /\ LET o == Op(t) IN
     \/ /\ o.op \in {"push", "try"} /\ Room
        /\ q' = Append(q, o.arg) /\ pushed' = Append(pushed, o.arg)
        /\ ret' = [ret EXCEPT ![t] = 1] /\ Unlocked(t, "notifyE")
        /\ UNCHANGED <<cap, waitE, waitF, popped>>
     \/ /\ o.op = "push" /\ ~Room
        /\ waitF' = waitF \union {t} /\ Unlocked(t, "waitF")
        /\ UNCHANGED <<q, cap, waitE, ret, pushed, popped>>
     \/ /\ o.op = "try" /\ ~Room
        /\ ret' = [ret EXCEPT ![t] = 0] /\ Unlocked(t, "ret")
        /\ UNCHANGED <<q, cap, waitE, waitF, pushed, popped>>
     \/ /\ o.op \in {"pop", "trypop"} /\ q # <<>>
        /\ ret' = [ret EXCEPT ![t] = Head(q)] /\ popped' = Append(popped, Head(q)) /\ q' = Tail(q)
        /\ Unlocked(t, "notifyF")
        /\ UNCHANGED <<cap, waitE, waitF, pushed>>
     \/ /\ o.op = "pop" /\ q = <<>>
        /\ waitE' = waitE \union {t} /\ Unlocked(t, "waitE")
        /\ UNCHANGED <<q, cap, waitF, ret, pushed, popped>>
     \/ /\ o.op = "trypop" /\ q = <<>>
        /\ ret' = [ret EXCEPT ![t] = 0] /\ Unlocked(t, "ret")
        /\ UNCHANGED <<q, cap, waitE, waitF, pushed, popped>>
     \/ /\ o.op = "cap"
        /\ cap' = o.arg /\ ret' = [ret EXCEPT ![t] = 0] /\ Unlocked(t, "notifyF")
        /\ UNCHANGED <<q, waitE, waitF, pushed, popped>>
  /\ UNCHANGED <<ip, woken, done, spur>>

NotifyE(t) == /\ pc[t] = "notifyE" /\ woken' = woken \union waitE /\ waitE' = {}
              /\ pc' = [pc EXCEPT ![t] = "ret"]
              /\ UNCHANGED <<ip, q, cap, mutex, waitF, ret, done, spur, pushed, popped>>
NotifyF(t) == /\ pc[t] = "notifyF" /\ woken' = woken \union waitF /\ waitF' = {}
              /\ pc' = [pc EXCEPT ![t] = "ret"]
              /\ UNCHANGED <<ip, q, cap, mutex, waitE, ret, done, spur, pushed, popped>>
\* a woken waiter reacquires the mutex and tests its predicate again
Wake(t) == /\ pc[t] \in {"waitE", "waitF"} /\ t \in woken /\ mutex = 0
           /\ woken' = woken \ {t} /\ mutex' = t /\ pc' = [pc EXCEPT ![t] = "crit"]
           /\ UNCHANGED <<ip, q, cap, waitE, waitF, ret, done, spur, pushed, popped>>
SpuriousWake(t) == /\ spur > 0 /\ t \in waitE \union waitF
                   /\ spur' = spur - 1 /\ woken' = woken \union {t}
                   /\ waitE' = waitE \ {t} /\ waitF' = waitF \ {t}
                   /\ UNCHANGED <<pc, ip, q, cap, mutex, ret, done, pushed, popped>>
Ret(t) == /\ pc[t] = "ret" /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ done' = [done EXCEPT ![t] = Append(@, ret[t])] /\ ip' = [ip EXCEPT ![t] = @ + 1]
          /\ ret' = [ret EXCEPT ![t] = -1]
          /\ UNCHANGED <<q, cap, mutex, waitE, waitF, woken, spur, pushed, popped>>

Step(t) == Lock(t) \/ Crit(t) \/ NotifyE(t) \/ NotifyF(t) \/ Wake(t) \/ Ret(t)
Next == \E t \in Threads : Step(t) \/ SpuriousWake(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Step(t))

----------------------------------------------------------------------------
\* FIFO: what was popped followed by what is still there is exactly what was pushed, in order
Fifo == popped \o q = pushed
\* an insertion never goes beyond the capacity in force
BoundStep == [][Len(q') > Len(q) => Len(q') <= cap]_vars
\* a waiter whose predicate holds always has a wake-up coming
NoLostWakeup ==
  /\ \A t \in waitE : q # <<>> => \E u \in Threads : pc[u] = "notifyE"
  /\ \A t \in waitF : Room => \E u \in Threads : pc[u] = "notifyF"
\* refinement of the abstract queue, step by step (linearization point = critical section)
Abs == INSTANCE QueueADT
Refines == [][ (q' # q \/ cap' # cap) =>
     \E t \in {u \in Threads : ~Finished(u)} : \E r \in Abs!Apply(q, cap, Op(t).op, Op(t).arg) : r[1] = q' /\ r[2] = cap' ]_vars
\* an enabled call returns unless the others keep disabling it
Enabled(t) == ~Finished(t) /\ CASE Op(t).op = "push" -> Room [] Op(t).op = "pop" -> q # <<>> [] OTHER -> TRUE
NoStarvation == \A t \in Threads : []<>(Finished(t) \/ ~Enabled(t))

MutexOK == mutex # 0 => pc[mutex] = "crit"
----------------------------------------------------------------------------
\* model values for TLC
P1 == <<  <<[op |-> "push", arg |-> 1], [op |-> "push", arg |-> 2]>>,
          <<[op |-> "push", arg |-> 3]>>,
          <<[op |-> "pop", arg |-> 0], [op |-> "pop", arg |-> 0]>>,
          <<[op |-> "pop", arg |-> 0]>> >>
P2 == <<  <<[op |-> "push", arg |-> 1], [op |-> "push", arg |-> 2], [op |-> "try", arg |-> 3]>>,
          <<[op |-> "cap", arg |-> 2], [op |-> "trypop", arg |-> 0]>>,
          <<[op |-> "pop", arg |-> 0], [op |-> "cap", arg |-> 0], [op |-> "cap", arg |-> 1]>> >>
P3 == <<  <<[op |-> "push", arg |-> 1]>>, <<[op |-> "push", arg |-> 2]>>, <<[op |-> "push", arg |-> 3]>>,
          <<[op |-> "cap", arg |-> 3], [op |-> "pop", arg |-> 0], [op |-> "pop", arg |-> 0]>> >>
=============================================================================
