----------------------------- MODULE BufferModel -----------------------------
(* Two containers using the allocator, as plain sequences.                     *)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt
CONSTANT MaxLen
VARIABLES v, w, h, nxt
vars == <<v, w, h, nxt>>
Init == v = << >> /\ w = << >> /\ h = << >> /\ nxt = 1
Resize(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
Op(name, a, b) == /\ v' = a /\ w' = b /\ h' = Append(h, name)
Next == /\ Len(h) < MaxLen
        /\ nxt' = nxt + 1
        /\ \/ Op("push", Append(v, nxt), w)
           \/ Op("insert", <<nxt>> \o v, w)
           \/ Op("grow", Resize(v, Len(v) + 70), w)
           \/ v # << >> /\ Op("pop", SubSeq(v, 1, Len(v) - 1), w)
           \/ v # << >> /\ Op("erase", Tail(v), w)
           \/ Op("resize3", Resize(v, 3), w)
           \/ Op("copy", w, w)
           \/ Op("move", w, << >>)
           \/ Op("swap", w, v)
           \/ Op("shrink", v, w)
           \/ Op("reserve", v, w)
           \/ Op("clear", << >>, w)
           \/ Op("append", v \o w, w)
Spec == Init /\ [][Next]_vars
Emit == (Len(h) = MaxLen) => PrintT("SEQ " \o ToJson(<<h, v, w>>))
=============================================================================
