------------------------------ MODULE EntryModel ------------------------------
EXTENDS Entry, TLC, Json, IOUtils
CONSTANTS MaxLen, Names
Extra == JsonDeserialize(IOEnv.INPUTS)
VARIABLES cs, opt
Init == cs \in {<<"R">>, <<".", "R">>, <<"R2", "..", "R">>, <<"..">>} /\ opt \in {0, 1, 3}
\* only directories have something below them
Next == /\ Len(cs) < MaxLen
        /\ Walk(Norm(cs)).t = "dir" \/ Follow(Walk(Norm(cs))).t = "dir" \/ Norm(cs) = <<"^">>
        /\ \E c \in Names : cs' = Append(cs, c) /\ opt' = opt
Spec == Init /\ [][Next]_<<cs, opt>>
Sane == LET d == Describe(cs, opt) IN d.ok => /\ \A i \in DOMAIN d.p : d.p[i] \notin {".", "..", "^"}
                                              /\ Walk(<<"R">> \o d.p).t \in {"file", "link"}
                                              /\ (d.l # << >>) = (opt = 3 /\ Walk(<<"R">> \o d.p).t = "link")
\* a dot right after a linked directory means the directory it leads to: only the lexical reading is specified
Plain == \A i \in 2..Len(cs) : cs[i] \in {".", ".."} => Walk(Norm(SubSeq(cs, 1, i - 1))).t # "link" /\ (i = Len(cs) => Walk(Norm(cs)).t # "link")
\* the target of a link reached through another link can be written in two ways
OneWay == LET n == Norm(cs) IN opt = 3 /\ Walk(n).t = "link" => \A i \in 1..(Len(n) - 1) : Walk(SubSeq(n, 1, i)).t # "link"
Emit == Plain /\ OneWay => PrintT("CASE " \o ToJson(<<cs, opt, Describe(cs, opt)>>))
ASSUME PrintT("WORLD " \o ToJson(World))
=============================================================================
