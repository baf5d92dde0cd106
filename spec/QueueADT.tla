------------------------------ MODULE QueueADT ------------------------------
(* The abstract bounded FIFO that dottorrent::concurrent_queue provides.      *)
(* An operation is a record [op, arg]; Apply gives its effect as a set of     *)
(* <<q', cap', ret>>: empty when the operation has to wait.                   *)
EXTENDS Naturals, Sequences

Apply(q, cap, op, arg) ==
  CASE op = "push"   -> IF Len(q) < cap THEN {<<Append(q, arg), cap, 0>>} ELSE {}
    [] op = "try"    -> IF Len(q) < cap THEN {<<Append(q, arg), cap, 1>>} ELSE {<<q, cap, 0>>}
    [] op = "pop"    -> IF q # <<>> THEN {<<Tail(q), cap, Head(q)>>} ELSE {}
    [] op = "trypop" -> IF q # <<>> THEN {<<Tail(q), cap, Head(q)>>} ELSE {<<q, cap, 0>>}
    [] op = "size"   -> {<<q, cap, Len(q)>>}
    [] op = "cap"    -> {<<q, arg, 0>>}
=============================================================================
