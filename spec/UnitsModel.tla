------------------------------ MODULE UnitsModel -----------------------------
EXTENDS Units, TLC, Json, IOUtils
CONSTANT Ports
Hosts == {<<>>, <<97>>, <<97, 98>>, <<98>>, <<97, 0>>, <<97, 200>>, <<65>>, <<58, 58, 49>>}
Values == JsonDeserialize(IOEnv.INPUTS)
VARIABLE c
Nodes == Hosts \X Ports
Init == \/ \E k \in DOMAIN Values, u \in Units : c = <<"lit", u, Values[k]>> /\ Fits(Bytes(u, Values[k]))
        \/ \E a, b \in Nodes : c = <<"node", a, b>>
Spec == Init /\ [][UNCHANGED c]_c
\* sanity of the arithmetic and the order
Sane == /\ c[1] = "lit" /\ c[2] # "bits" => Trim(Div(Times(c[3], Factor(c[2]), 1), Factor(c[2]))) = Trim(c[3])
        /\ c[1] = "node" => /\ NodeCmp(c[2], c[3]) = 0 - NodeCmp(c[3], c[2])
                            /\ (NodeCmp(c[2], c[3]) = 0) = (c[2] = c[3])
Emit == /\ c[1] = "lit" => PrintT("LIT " \o ToJson(<<c[2], c[3], Bytes(c[2], c[3])>>))
        /\ c[1] = "node" => PrintT("NODE " \o ToJson(<<c[2], c[3], NodeCmp(c[2], c[3])>>))
=============================================================================
