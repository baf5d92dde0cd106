------------------------------- MODULE MetaSets -------------------------------
(* The collections and scalar fields of a metafile.                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt
Lists == {"web", "http", "node"}
Sets == {"similar", "collection"}
Scalars == {"name", "comment", "created_by", "date", "source", "private", "cross"}
New == [web |-> << >>, http |-> << >>, node |-> << >>, similar |-> {}, collection |-> {}, name |-> 0, comment |-> 0, created_by |-> 0,
        date |-> 0, source |-> 0, private |-> 0, cross |-> 0, other |-> {}]
In(s, x) == \E i \in DOMAIN s : s[i] = x
Step(m, op) ==
   CASE op[1] = "add" -> [m EXCEPT ![op[2]] = IF op[2] \in Lists THEN (IF In(@, op[3]) THEN @ ELSE Append(@, op[3])) ELSE @ \cup {op[3]}]
     [] op[1] = "rm" -> [m EXCEPT ![op[2]] = IF op[2] \in Lists THEN SelectSeq(@, LAMBDA x : x # op[3]) ELSE @ \ {op[3]}]
     [] op[1] = "clear" -> [m EXCEPT ![op[2]] = IF op[2] \in Lists THEN << >> ELSE {}]
     [] op[1] = "set" -> [m EXCEPT ![op[2]] = op[3]]
     [] op[1] = "new" -> New
     [] OTHER -> m
Show(m) == [m EXCEPT !.similar = SetToSortSeq(@, LAMBDA a, b : a < b), !.collection = SetToSortSeq(@, LAMBDA a, b : a < b), !.other = 0]
=============================================================================
