------------------------------ MODULE AlignModel ------------------------------
(* Layouts and what alignment and the automatic piece size make of them.        *)
EXTENDS Storage, TLC, Json, IOUtils
CONSTANTS MaxFiles, Sz, Exps
VARIABLES fs, e
Extra == JsonDeserialize(IOEnv.INPUTS)
Mk(ss) == [i \in DOMAIN ss |-> [p |-> <<"f", i>>, s |-> ss[i], k |-> "file", id |-> i]]
SzDef == {<<0, 0>>, <<0, 1>>, <<0, 16383>>, <<1, 0>>, <<1, 1>>, <<2, 0>>, <<7, 16383>>}
Init == fs = << >> /\ e \in Exps
Next == Len(fs) < MaxFiles /\ \E s \in Sz : fs' = Append(fs, s) /\ e' = e
Spec == Init /\ [][Next]_<<fs, e>>
Base(x) == [Empty EXCEPT !.f = Mk(x)]
Res(x, exp) == LET b == Set(Base(x), exp) IN [b EXCEPT !.f = Align(@, exp)]
Row(x, exp, exp2) == [sizes |-> x, e |-> exp, aligned0 |-> Aligned(Set(Base(x), exp)), aligned |-> Res(x, exp).f, e2 |-> exp2, again |-> Res(x, exp2).f,
                pieces |-> Pieces(Res(x, exp)), chosen |-> ChosenExponent(Base(x)), chosen2 |-> ChosenExponent(Res(x, exp))]
Sane == LET a == Res(fs, e) IN /\ Aligned(a) /\ Align(a.f, e) = a.f /\ Regular(a.f) = Mk(fs) /\ ChosenExponent(a) \in 15..24
                               /\ (Aligned(Set(Base(fs), e)) => a.f = Mk(fs))
                               /\ Total(a) = Plus(TotalRegular(a), Sum([i \in DOMAIN a.f |-> IF IsPad(a.f[i]) THEN a.f[i].s ELSE Zero]))
Emit == PrintT("CASE " \o ToJson(Row(fs, e, IF e = 14 THEN 16 ELSE 14)))
ASSUME \A k \in DOMAIN Extra : PrintT("CASE " \o ToJson(Row(Extra[k][1], Extra[k][2], Extra[k][3])))
=============================================================================
