----------------------------- MODULE SavingModel ------------------------------
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANT MaxLen
In == JsonDeserialize(IOEnv.INPUTS)      \* [sizes, sequences of calls]
Sz(m) == In[1][m]
INSTANCE Saving WITH Size <- Sz
VARIABLES h, f, last
Ms == DOMAIN In[1]
Limits(m) == {-1, 0, 1, Sz(m) \div 2, Sz(m) - 1, Sz(m), Sz(m) + 1} \cup ({4096, 8191, 8192} \cap 0..(Sz(m) + 1))
Ops == UNION {{<<"save", m, k>> : k \in Limits(m)} : m \in Ms} \cup {<<"load", k>> : k \in {-1, 0, 1, 8191, 8192}}
       \cup {<<"load", Sz(m) - 1>> : m \in Ms} \cup {<<"bad">>, <<"remove">>} \cup {<<o, w>> : o \in {"saveat", "loadat"}, w \in {"dir", "missing"}} \cup {<<"saveat", "full">>}
Init == h = << >> /\ f = Absent /\ last = Raise
Next == Len(h) < MaxLen /\ \E op \in Ops : LET r == Step(f, op) IN f' = r[1] /\ last' = r[2] /\ h' = Append(h, op)
Spec == Init /\ [][Next]_<<h, f, last>>
\* no call succeeds without everything being there, and a load never changes the file
Whole == h # << >> /\ Last(h)[1] = "save" => (last.ok <=> f = Last(h)[2])
Faithful == h # << >> /\ Last(h)[1] = "load" /\ last.ok => last.what = f /\ f \in Ms
Untouched == [][h' # h /\ Last(h')[1] \in {"load", "bad", "saveat", "loadat"} => f' = f]_<<h, f, last>>
Res(ops) == FoldLeft(LAMBDA a, o : LET r == Step(a.f, o) IN [f |-> r[1], s |-> Append(a.s, <<r[1], r[2].ok, r[2].what>>)], [f |-> Absent, s |-> << >>], ops).s
Emit == h # << >> => PrintT("CASE " \o ToJson(<<h, Res(h)>>))
ASSUME \A i \in DOMAIN In[2] : PrintT("CASE " \o ToJson(<<In[2][i], Res(In[2][i])>>))
ASSUME \A m \in Ms : \A k \in Limits(m) : PrintT("STREAM " \o ToJson(<<m, k, Stream(m, k)>>))
=============================================================================
