------------------------------ MODULE EntryCopy -------------------------------
(* The fields of a file entry under edits, copies, moves and assignments.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
CONSTANT MaxLen
VARIABLES h, e
Extra == JsonDeserialize(IOEnv.INPUTS)
\* kind: 0 plain, 1 with attributes, 2 symlink, 3 padding
New(k) == [k |-> k, sums |-> << >>, root |-> 0, layer |-> << >>, v2 |-> FALSE, time |-> 0]
Algs == <<"md5", "sha1", "sha256", "custom">>
Put(s, a, v) == SortSeq(SelectSeq(s, LAMBDA x : x[1] # a) \o <<<<a, v>>>>, LAMBDA x, y : x[1] < y[1])
Step(x, op) ==
   CASE op[1] = "new" -> New(op[2])
     [] op[1] = "sum" -> [x EXCEPT !.sums = Put(@, op[2], op[3])]
     [] op[1] = "unsum" -> [x EXCEPT !.sums = SelectSeq(@, LAMBDA y : y[1] # op[2])]
     [] op[1] = "root" -> [x EXCEPT !.root = op[2], !.v2 = TRUE]
     [] op[1] = "layer" -> [x EXCEPT !.layer = [i \in 1..op[2] |-> i], !.v2 = TRUE]
     [] op[1] = "time" -> [x EXCEPT !.time = op[2]]
     [] OTHER -> x
Ops == {<<"sum", a, v>> : a \in {1, 4}, v \in {1, 2}} \cup {<<"unsum", 1>>, <<"unsum", 4>>, <<"root", 3>>, <<"layer", 0>>, <<"layer", 3>>, <<"time", 5>>, <<"copy">>, <<"move">>, <<"assign">>, <<"massign">>, <<"self">>}
Init == \E k \in 0..3 : h = <<<<"new", k>>>> /\ e = New(k)
Next == Len(h) < MaxLen /\ \E op \in Ops : h' = Append(h, op) /\ e' = Step(e, op)
Spec == Init /\ [][Next]_<<h, e>>
Sane == \A i, j \in DOMAIN e.sums : i < j => e.sums[i][1] < e.sums[j][1]
Emit == PrintT("COPY " \o ToJson(<<h, e>>))
ASSUME \A k \in DOMAIN Extra : PrintT("COPY " \o ToJson(<<Extra[k], FoldLeft(LAMBDA s, o : Step(s, o), New(0), Extra[k])>>))
=============================================================================
