------------------------------- MODULE Lifecycle -----------------------------
(* A hasher or verifier as its user sees it: new, running, done or cancelled.  *)
(* A call answers or raises an error as the state says. The progress counters  *)
(* (bytes read, hashed and done, and the file worked on with the bytes of it)  *)
(* never decrease, never exceed the totals, and equal them when the work is    *)
(* done. "fault" says that the storage device reported an error.               *)
EXTENDS Integers, Sequences
VARIABLES ph, op, failed, r, h, d, fi
lvars == <<ph, op, failed, r, h, d, fi>>
\* t: [read, done, hmin, hmax: totals, sizes: bytes of each file that count as done]
LInit == ph = "new" /\ op = "" /\ failed = FALSE /\ r = 0 /\ h = 0 /\ d = 0 /\ fi = 0
Ops == {"start", "wait", "cancel", "destroy"}
Answers(o, fault) == CASE o = "start" -> ph = "new"
                       [] o = "wait" -> ph = "running" /\ ~fault
                       [] o = "cancel" -> ph \in {"new", "running"}
                       [] OTHER -> TRUE
After(o) == CASE o = "start" -> "running" [] o = "wait" -> "done" [] o = "cancel" -> "cancelled" [] OTHER -> "gone"
\* destroying a running object is not allowed
Call(o) == op = "" /\ ph # "gone" /\ ~(o = "destroy" /\ ph = "running") /\ op' = o /\ UNCHANGED <<ph, failed, r, h, d, fi>>
Return(o, fault) == op = o /\ Answers(o, fault) /\ op' = "" /\ ph' = After(o) /\ UNCHANGED <<failed, r, h, d, fi>>
Raise(o, fault) == /\ op = o /\ ~Answers(o, fault) /\ op' = ""
                   /\ (IF o = "wait" /\ ph = "running" THEN ph' = "done" /\ failed' = TRUE ELSE UNCHANGED <<ph, failed>>) /\ UNCHANGED <<r, h, d, fi>>
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
Within(a, lo, hi) == lo <= a /\ a <= hi
Poll(t, nr, nh, nd, nf, fb) ==
   /\ op = "" /\ ph # "gone"
   /\ nf < Len(t.sizes) /\ nf >= fi /\ Within(fb, 0, t.sizes[nf + 1])
   /\ CASE ph = "new" -> nr = 0 /\ nh = 0 /\ nd = 0
        [] ph = "done" /\ ~failed -> nr = t.read /\ nd = t.done /\ Within(nh, t.hmin, t.hmax) /\ Sum(t.sizes, nf) + fb = nd
        [] OTHER -> Within(nr, r, t.read) /\ Within(nh, h, t.hmax) /\ Within(nd, d, t.done)
   /\ r' = nr /\ h' = nh /\ d' = nd /\ fi' = nf /\ UNCHANGED <<ph, op, failed>>
Flag(b) == IF b THEN 1 ELSE 0
Query(st, ru, ca, dn) == /\ op = "" /\ ph # "gone" /\ ru = Flag(ph = "running") /\ ca = Flag(ph = "cancelled") /\ dn = Flag(ph \in {"done", "cancelled"})
                         /\ (ph \in {"running", "done"} => st = 1) /\ (ph = "new" => st = 0) /\ UNCHANGED lvars
=============================================================================
