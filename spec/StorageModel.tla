----------------------------- MODULE StorageModel -----------------------------
(* Edit sequences of a storage with everything that must be seen after them.    *)
EXTENDS Storage, TLC, Json, IOUtils
CONSTANTS MaxLen, Exps, Which
VARIABLES h, st
Extra == JsonDeserialize(IOEnv.INPUTS)
File(p, s, id) == [p |-> p, s |-> s, k |-> "file", id |-> id]
Adds == {File(<<"d", "a">>, <<0, 1>>, 1), File(<<"d.2", "a">>, <<1, 5>>, 102), File(<<"b">>, <<3, 16383>>, 3),
         File(<<"d", "e", "f">>, <<0, 0>>, 4), File(<<"e", "x">>, <<2, 0>>, 105), Pad(<<0, 16383>>)}
EditOps == {<<"add", x>> : x \in Adds} \cup {<<"del", x.p>> : x \in {y \in Adds : y.k = "file"}}
           \cup {<<"piece", e>> : e \in Exps} \cup {<<"mode", "single">>, <<"mode", "multi">>}
           \cup {<<k>> : k \in {"clear", "alloc", "choose", "align", "copy", "assign", "move", "massign"}}
Enabled(s, op) == CASE op[1] \in {"align"} -> s.e # 0
                    [] op[1] = "alloc" -> s.e # 0 /\ Pieces(s) < 50
                    [] op[1] = "hash" -> op[2] \in DOMAIN s.v1 /\ Len(s.v1) = Pieces(s)
                    [] op[1] \in {"copy", "assign", "move", "massign"} -> s # Empty
                    [] op[1] = "clear" -> s.f # << >>
                    [] OTHER -> TRUE
Probes(s) == DirsOf(s.f) \cup ({<<"d">>, <<"d", "e">>, <<"e">>, <<"di">>, << >>} \ {s.f[i].p : i \in DOMAIN s.f})
Seen(s) == [o |-> Obs(s), probes |-> SetToSeq({[d |-> d, in |-> SetToSeq({i \in DOMAIN s.f : Below(s.f[i].p, d)}), dirs |-> Cardinality(DirsBelow(s.f, d)),
                                             nopad |-> Cardinality({x \in DirsBelow(s.f, d) : ~OnlyPads(s.f, x)}), pad |-> IF OnlyPads(s.f, d) THEN 1 ELSE 0] : d \in Probes(s)})]
Init == h = << >> /\ st = Empty
Edit(op) == Enabled(st, op) /\ h' = Append(h, op) /\ st' = Step(st, op)
Next == /\ Which = "edits"
        /\ Len(h) < MaxLen
        /\ \E op \in EditOps \cup {<<"hash", 1, 7>>} : Edit(op)
Spec == Init /\ [][Next]_<<h, st>>
\* consistency of the specification itself
Sane == /\ ~Less(Total(st), TotalRegular(st))
        /\ st.e # 0 => /\ \A i \in DOMAIN st.f : LET p == Span(st, i) IN p[1] <= p[2] /\ p[2] <= Pieces(st)
                       /\ \A i \in DOMAIN st.f : (st.f[i].s # Zero) => Span(st, i)[1] < Span(st, i)[2]
                       /\ LET a == Align(st.f, st.e) IN
                            /\ Aligned([st EXCEPT !.f = a]) /\ Align(a, st.e) = a /\ Regular(a) = Regular(st.f)
                            /\ \A i \in DOMAIN a : IsPad(a[i]) => i > 1 /\ i < Len(a) /\ ~IsPad(a[i - 1]) /\ ~IsPad(a[i + 1]) /\ Less(a[i].s, <<BlocksOf(st.e), 0>>)
Emit == (Len(h) >= 1) => PrintT("CASE " \o ToJson(<<h, <<Seen(st)>>>>))
\* long sequences given from outside: observations at every "q"
Conv(op) == IF op[1] = "add" THEN <<"add", [p |-> op[2], s |-> op[3], k |-> "file", id |-> op[4]]>> ELSE op
Play(acc, op) == IF op[1] = "q" THEN [s |-> acc.s, o |-> Append(acc.o, Seen(acc.s)), u |-> Append(acc.u, op)]
                 ELSE IF Enabled(acc.s, Conv(op)) THEN [s |-> Step(acc.s, Conv(op)), o |-> acc.o, u |-> Append(acc.u, Conv(op))]
                 ELSE acc
ASSUME \A k \in DOMAIN Extra : LET r == FoldLeft(Play, [s |-> Empty, o |-> << >>, u |-> << >>], Extra[k]) IN PrintT("CASE " \o ToJson(<<r.u, r.o>>))
=============================================================================
