----------------------------- MODULE MerkleModel -----------------------------
(* A tree as an object: leaves are assigned, an update recomputes the nodes    *)
(* above. TLC enumerates call sequences with what must be seen.                *)
EXTENDS Merkle, TLC, Json, IOUtils, SequencesExt
CONSTANTS Counts, Vals, MaxLen
VARIABLES h, lv, fresh, obs
Extra == JsonDeserialize(IOEnv.INPUTS)
Start(n, v) == [i \in 1..PowerAbove(n) |-> v]
\* lv: all leaves (a power of two); fresh: the nodes above are up to date
Obs(l) == Layers(l)
Step(s, op) ==
   CASE op[1] = "n" -> [l |-> Start(op[2], op[3]), f |-> FALSE, o |-> s.o]
     [] op[1] = "s" -> [l |-> [s.l EXCEPT ![op[2]] = op[3]], f |-> Len(s.l) = 1, o |-> s.o]
     [] op[1] = "u" -> [l |-> s.l, f |-> TRUE, o |-> s.o]
     [] op[1] = "q" -> [l |-> s.l, f |-> s.f, o |-> Append(s.o, Obs(s.l))]
     [] op[1] = "l" -> [l |-> s.l, f |-> s.f, o |-> Append(s.o, <<s.l>>)]
     [] OTHER -> s                       \* copies and moves: c m a b
Init == \E n \in Counts, v \in {0, 7} : h = <<<<"n", n, v>>>> /\ lv = Start(n, v) /\ fresh = FALSE /\ obs = << >>
Do(op) == LET t == Step([l |-> lv, f |-> fresh, o |-> obs], op) IN h' = Append(h, op) /\ lv' = t.l /\ fresh' = t.f /\ obs' = t.o
Op == h[Len(h)][1]
Next == /\ Len(h) < MaxLen
        /\ \/ \E i \in DOMAIN lv, v \in Vals : Do(<<"s", i, v>>)
           \/ Op # "u" /\ Do(<<"u">>)
           \/ fresh /\ Op # "q" /\ Do(<<"q">>)
           \/ ~fresh /\ Op \in {"s", "n"} /\ Do(<<"l">>)
           \/ \E k \in {"c", "m", "a", "b"} : Op \in {"u", "s"} /\ Do(<<k>>)
           \/ Op = "q" /\ \E n \in Counts : Do(<<"n", n, 0>>)
Spec == Init /\ [][Next]_<<h, lv, fresh, obs>>
\* structure of what is seen: one more layer per doubling, each node over its two children
Shape == \A k \in DOMAIN obs : Len(obs[k]) > 1 =>
            /\ Len(obs[k]) = Log2(Len(obs[k][Len(obs[k])])) + 1
            /\ \A d \in 1..(Len(obs[k]) - 1) : \A i \in DOMAIN obs[k][d] : obs[k][d][i] = <<obs[k][d + 1][2 * i - 1], obs[k][d + 1][2 * i]>>
Emit == (Op \in {"q", "l"} /\ Len(h) >= 3) => PrintT("CASE " \o ToJson(<<h, obs>>))
Run(ops) == FoldLeft(LAMBDA s, op : Step(s, op), [l |-> <<0>>, f |-> TRUE, o |-> << >>], ops)
ASSUME \A k \in DOMAIN Extra : PrintT("CASE " \o ToJson(<<Extra[k], Run(Extra[k]).o>>))
=============================================================================
