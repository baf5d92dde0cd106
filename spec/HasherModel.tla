----------------------------- MODULE HasherModel -----------------------------
(* Enumerates call sequences with the digests they must produce.               *)
EXTENDS Hasher, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS Hashers, Parts, MaxLen
VARIABLES h,      \* calls so far: <<"c",k>>, <<"u",k,part>>, <<"f",k>>, <<"d",k>>, <<"r",k>>
          res     \* digests returned so far
Extra == JsonDeserialize(IOEnv.INPUTS)
Init == h = << >> /\ res = << >> /\ hs = << >>
\* hashers are created in order; a sequence ends with a finalization of interest
Do(op) == /\ h' = Append(h, op)
          /\ CASE op[1] = "c" -> New(op[2]) /\ res' = res
               [] op[1] = "u" -> Update(op[2], op[3]) /\ res' = res
               [] op[1] = "f" -> \E r \in {hs[op[2]]} : Finalize(op[2], r) /\ res' = Append(res, r)
               [] op[1] = "r" -> Reset(op[2]) /\ res' = res
               [] op[1] = "d" -> Destroy(op[2]) /\ res' = res
Next == /\ Len(h) < MaxLen
        /\ \/ \E k \in Hashers \ DOMAIN hs : (\A j \in Hashers : j < k => j \in DOMAIN hs) /\ Do(<<"c", k>>)
           \/ \E k \in DOMAIN hs : \/ \E c \in Parts : Do(<<"u", k, c>>)
                                   \/ Do(<<"f", k>>)
                                   \/ Do(<<"d", k>>)
                                   \/ Do(<<"r", k>>)
Spec == Init /\ [][Next]_<<h, res, hs>>
\* what a digest covers: the updates of that hasher since its creation or last finalization (or reset)
Since(i, k) == LET cut == {j \in 1..(i - 1) : h[j][2] = k /\ h[j][1] \in {"c", "f", "r"}} 
                   m == CHOOSE x \in cut : \A y \in cut : y <= x
               IN SelectSeq([j \in 1..(i - 1 - m) |-> h[m + j]], LAMBDA e : e[1] = "u" /\ e[2] = k)
Fin == SelectSeq([i \in DOMAIN h |-> i], LAMBDA i : h[i][1] = "f")
Right == \A n \in DOMAIN Fin : LET i == Fin[n] IN
            res[n] = [j \in DOMAIN Since(i, h[i][2]) |-> Since(i, h[i][2])[j][3]]
Emit == (Len(h) > 0 /\ h[Len(h)][1] = "f" /\ (Len(h) = MaxLen \/ Len(h) <= 4)) => PrintT("CASE " \o ToJson(<<h, res>>))
\* longer sequences given from outside, run through the same transitions
Run(ops) == FoldLeft(LAMBDA s, op :
              CASE op[1] = "c" -> [s EXCEPT !.d = [j \in DOMAIN s.d \union {op[2]} |-> IF j = op[2] THEN << >> ELSE s.d[j]]]
                [] op[1] = "u" -> [s EXCEPT !.d[op[2]] = Append(@, op[3])]
                [] op[1] = "f" -> [d |-> [s.d EXCEPT ![op[2]] = << >>], r |-> Append(s.r, s.d[op[2]])]
                [] op[1] = "r" -> [s EXCEPT !.d[op[2]] = << >>]
                [] OTHER -> [s EXCEPT !.d = [j \in DOMAIN s.d \ {op[2]} |-> s.d[j]]],
              [d |-> << >>, r |-> << >>], ops)
Same == Run(h).r = res /\ Run(h).d = hs
ASSUME \A k \in DOMAIN Extra : PrintT("CASE " \o ToJson(<<Extra[k], Run(Extra[k]).r>>))
=============================================================================
