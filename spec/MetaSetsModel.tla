----------------------------- MODULE MetaSetsModel ----------------------------
EXTENDS MetaSets, TLC, Json, IOUtils
CONSTANTS MaxLen
VARIABLES h, m
Extra == JsonDeserialize(IOEnv.INPUTS)
Ops == UNION {{<<"add", c, 1>>, <<"add", c, 2>>, <<"rm", c, 1>>, <<"rm", c, 2>>, <<"clear", c>>} : c \in Lists \cup Sets} \cup {<<"set", f, 1>> : f \in Scalars} \cup {<<"copy">>, <<"move">>, <<"assign">>, <<"massign">>}
Init == h = << >> /\ m = New
Next == Len(h) < MaxLen /\ \E op \in Ops : h' = Append(h, op) /\ m' = Step(m, op)
Spec == Init /\ [][Next]_<<h, m>>
Sane == \A c \in Lists : \A i, j \in DOMAIN m[c] : i # j => m[c][i] # m[c][j]
Emit == h # << >> => PrintT("CASE " \o ToJson(<<h, Show(m)>>))
ASSUME \A k \in DOMAIN Extra : PrintT("CASE " \o ToJson(<<Extra[k], Show(FoldLeft(LAMBDA s, o : Step(s, o), New, Extra[k]))>>))
=============================================================================
