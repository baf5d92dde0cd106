------------------------------ MODULE MultiBuffer -----------------------------
(* Hashing several messages at once. Each job is a slot that collects the parts *)
(* of one message; its digest, once all parts are given, is that of their       *)
(* concatenation and of nothing else: whatever the other jobs do, in whatever   *)
(* order the machine works on them. A digest is represented by the sequence of  *)
(* parts it covers.                                                             *)
(*   z n    resize to n jobs       e j c  job j is the one part c               *)
(*   f j c  first part of job j    u j c  further part    l j c  last part      *)
(*   E c, F c  as e and f in a new job, whose number is returned                *)
(*   t j    take the digest        r      discard all jobs                      *)
(* A job can be started again once its digest was taken; jobs can be discarded  *)
(* (by r or a smaller z) at any time.                                           *)
EXTENDS Naturals, Sequences
NewJob == [st |-> "new", p |-> << >>]
Startable(x) == x.st \in {"new", "taken"}
Legal(js, op) ==
  CASE op[1] \in {"z", "E", "F", "r"} -> TRUE
    [] op[2] \notin 1..Len(js) -> FALSE
    [] op[1] \in {"e", "f"} -> Startable(js[op[2]])
    [] op[1] \in {"u", "l"} -> js[op[2]].st = "open"
    [] OTHER -> js[op[2]].st \in {"closed", "taken"}
Step(js, op) ==
  CASE op[1] = "z" -> [i \in 1..op[2] |-> IF i <= Len(js) THEN js[i] ELSE NewJob]
    [] op[1] = "r" -> << >>
    [] op[1] = "E" -> Append(js, [st |-> "closed", p |-> <<op[2]>>])
    [] op[1] = "F" -> Append(js, [st |-> "open", p |-> <<op[2]>>])
    [] op[1] = "e" -> [js EXCEPT ![op[2]] = [st |-> "closed", p |-> <<op[3]>>]]
    [] op[1] = "f" -> [js EXCEPT ![op[2]] = [st |-> "open", p |-> <<op[3]>>]]
    [] op[1] = "u" -> [js EXCEPT ![op[2]].p = Append(@, op[3])]
    [] op[1] = "l" -> [js EXCEPT ![op[2]] = [st |-> "closed", p |-> Append(@.p, op[3])]]
    [] OTHER -> [js EXCEPT ![op[2]].st = "taken"]
\* what the call returns
Out(js, op) ==
  CASE op[1] \in {"z", "r"} -> [n |-> Len(Step(js, op))]
    [] op[1] \in {"E", "F"} -> [id |-> Len(js) + 1]
    [] op[1] = "t" -> [digest |-> js[op[2]].p]
    [] OTHER -> [ok |-> TRUE]
=============================================================================
