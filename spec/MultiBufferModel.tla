--------------------------- MODULE MultiBufferModel ---------------------------
(* Enumerates call sequences on a multi-buffer hasher with what they return.    *)
EXTENDS MultiBuffer, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS Parts, MaxJobs, MaxLen
VARIABLES jobs, h, out
Extra == JsonDeserialize(IOEnv.INPUTS)
Calls(js) == {op \in {<<"z", n>> : n \in 0..MaxJobs} \union {<<"r">>}
                \union (IF Len(js) < MaxJobs THEN {<<k, c>> : k \in {"E", "F"}, c \in Parts} ELSE {})
                \union {<<k, j, c>> : k \in {"e", "f", "u", "l"}, j \in 1..MaxJobs, c \in Parts}
                \union {<<"t", j>> : j \in 1..MaxJobs} : Legal(js, op)}
Init == jobs = << >> /\ h = << >> /\ out = << >>
Next == Len(h) < MaxLen /\ \E op \in Calls(jobs) :
          /\ ~(Len(h) > 0 /\ h[Len(h)] = op /\ op[1] \in {"z", "r"})
          /\ jobs' = Step(jobs, op) /\ h' = Append(h, op) /\ out' = Append(out, Out(jobs, op))
Spec == Init /\ [][Next]_<<jobs, h, out>>
\* a digest covers the parts of one message: those given to the job since it was last started
Mine(k, j) == IF h[k][1] \in {"E", "F"} THEN out[k].id = j ELSE h[k][1] \in {"e", "f", "u", "l"} /\ h[k][2] = j
Start(i, j) == CHOOSE m \in 1..(i - 1) : /\ Mine(m, j) /\ h[m][1] \in {"e", "f", "E", "F"}
                                         /\ \A k \in (m + 1)..(i - 1) : ~(Mine(k, j) /\ h[k][1] \in {"e", "f", "E", "F"})
Own(i, j) == LET s == SelectSeq([k \in 1..(i - Start(i, j)) |-> Start(i, j) + k - 1], LAMBDA k : Mine(k, j)) IN [k \in DOMAIN s |-> h[s[k]][Len(h[s[k]])]]
Right == \A i \in DOMAIN h : h[i][1] = "t" => out[i].digest = Own(i, h[i][2])
Emit == (Len(h) > 0 /\ h[Len(h)][1] \in {"t", "r"} /\ (Len(h) = MaxLen \/ Len(h) <= 3)) => PrintT("CASE " \o ToJson(<<h, out>>))
Run(ops) == FoldLeft(LAMBDA s, op : [j |-> Step(s.j, op), o |-> Append(s.o, Out(s.j, op)), ok |-> s.ok /\ Legal(s.j, op)], [j |-> << >>, o |-> << >>, ok |-> TRUE], ops)
ASSUME \A k \in DOMAIN Extra : Assert(Run(Extra[k]).ok, Extra[k]) /\ PrintT("CASE " \o ToJson(<<Extra[k], Run(Extra[k]).o>>))
=============================================================================
