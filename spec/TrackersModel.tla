----------------------------- MODULE TrackersModel ----------------------------
EXTENDS Trackers, TLC, Json, IOUtils
CONSTANTS Urls, MaxLen, Kind
VARIABLES h, ts
Extra == JsonDeserialize(IOEnv.INPUTS)
MetaOps == {<<"add", u, t>> : u \in Urls, t \in 0..2} \cup {<<"addend", u>> : u \in Urls} \cup {<<"rm", u>> : u \in Urls} \cup {<<"rmat", u, t>> : u \in Urls, t \in 0..2} \cup {<<"copy">>}
ListOps == {<<"insert", u, t>> : u \in Urls, t \in 0..2} \cup {<<"emplace", u, t>> : u \in {1}, t \in 0..2} \cup {<<"erase", u, t>> : u \in Urls, t \in 0..2} \cup {<<"eraseit", u, t>> : u \in {2}, t \in 0..2} \cup {<<"copy">>}
Init == h = << >> /\ ts = << >>
Next == Len(h) < MaxLen /\ \E op \in (IF Kind = "meta" THEN MetaOps ELSE ListOps) : Allowed(ts, op) /\ h' = Append(h, op) /\ ts' = Step(ts, op)
Spec == Init /\ [][Next]_<<h, ts>>
Sane == /\ \A i \in DOMAIN ts : ts[i] # {}
        /\ Kind = "meta" => \A i, j \in DOMAIN ts : i # j => ts[i] \cap ts[j] = {}
Emit == h # << >> => PrintT("CASE " \o ToJson(<<h, <<Show(ts)>>>>))
\* sequences from outside; calls that are not allowed are dropped, an observation is taken after every call
Play(a, op) == IF Allowed(a.s, op) THEN LET n == Step(a.s, op) IN [s |-> n, u |-> Append(a.u, op), o |-> Append(a.o, Show(n))] ELSE a
ASSUME \A k \in DOMAIN Extra : LET r == FoldLeft(Play, [s |-> << >>, u |-> << >>, o |-> << >>], Extra[k]) IN PrintT("LONG " \o ToJson(<<r.u, r.o>>))
=============================================================================
