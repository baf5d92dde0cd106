------------------------------ MODULE QueueSeq ------------------------------
(* Every sequential history of the abstract queue up to a depth: each maximal *)
(* behaviour is printed and replayed against the real queue.                  *)
EXTENDS Naturals, Sequences, TLC, Json, QueueADT
CONSTANTS Depth, Caps
VARIABLES q, cap, cap0, hist
vars == <<q, cap, cap0, hist>>
Init == q = <<>> /\ cap \in Caps /\ cap0 = cap /\ hist = <<>>
Ops == { [op |-> o, arg |-> Len(hist) + 1] : o \in {"push", "pushc", "try"} }
       \union { [op |-> o, arg |-> 0] : o \in {"pop", "trypop", "size"} }
       \union { [op |-> "cap", arg |-> c] : c \in {0, 1, 3} }
Name(o) == IF o = "pushc" THEN "push" ELSE o
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : \E r \in Apply(q, cap, Name(o.op), o.arg) :
              /\ q' = r[1] /\ cap' = r[2] /\ UNCHANGED cap0
              /\ hist' = Append(hist, <<o.op, o.arg, r[3], Len(r[1])>>)
              /\ (Len(hist') = Depth => PrintT("H " \o ToJson(<<cap0, hist'>>)))
Spec == Init /\ [][Next]_vars
\* observations are total and consistent: FIFO order of what was accepted
TypeOK == /\ \A k \in DOMAIN q : q[k] \in 1 .. Depth
          /\ \A j, k \in DOMAIN q : j < k => q[j] < q[k]
=============================================================================
