-------------------------------- MODULE Entry ---------------------------------
(* Describing a path on disk as a torrent file entry. The world is a small tree *)
(* in a directory that holds the torrent root "R" and things outside it.        *)
EXTENDS Integers, Sequences, SequencesExt
D == [t |-> "dir", s |-> 0, x |-> FALSE, to |-> << >>]
F(n, x) == [t |-> "file", s |-> n, x |-> x, to |-> << >>]
L(to) == [t |-> "link", s |-> 0, x |-> FALSE, to |-> to]     \* to: where the link leads, from the top
Node == [t : {"dir", "file", "link", "pipe", "none"}]
World == << <<<<"R">>, D>>, <<<<"R2">>, D>>, <<<<"out">>, F(9, FALSE)>>, <<<<"R2", "f">>, F(8, FALSE)>>,
            <<<<"R", "f">>, F(5, FALSE)>>, <<<<"R", "e">>, F(0, FALSE)>>, <<<<"R", "x">>, F(7, TRUE)>>,
            <<<<"R", "..f">>, F(3, FALSE)>>, <<<<"R", "...">>, F(4, TRUE)>>, <<<<"R", ".h">>, F(6, FALSE)>>,
            <<<<"R", "s">>, D>>, <<<<"R", "s", "f">>, F(11, TRUE)>>, <<<<"R", "s", "t">>, D>>, <<<<"R", "s", "t", "g">>, F(12, FALSE)>>,
            <<<<"R", "..d">>, D>>, <<<<"R", "..d", "f">>, F(13, FALSE)>>,
            <<<<"R", "p">>, [t |-> "pipe", s |-> 0, x |-> FALSE, to |-> << >>]>>,
            <<<<"R", "lf">>, L(<<"R", "f">>)>>, <<<<"R", "lx">>, L(<<"R", "x">>)>>, <<<<"R", "ld">>, L(<<"R", "s">>)>>, <<<<"R", "dead">>, L(<<"R", "gone">>)>>,
            <<<<"R", "s", "up">>, L(<<"R", "f">>)>>, <<<<"R", "s", "t", "deep">>, L(<<"R", "s", "f">>)>>, <<<<"R", "s", "abs">>, L(<<"R", "x">>)>> >>
Absent == [t |-> "none", s |-> 0, x |-> FALSE, to |-> << >>]
At(p) == LET k == {i \in DOMAIN World : World[i][1] = p} IN IF k = {} THEN Absent ELSE World[CHOOSE i \in k : TRUE][2]
\* the node a path leads to when directories on the way may be links
RECURSIVE RealDir(_)
RealDir(p) == IF p = << >> THEN << >> ELSE LET q == Append(RealDir(Front(p)), Last(p)) IN IF At(q).t = "link" THEN At(q).to ELSE q
Walk(p) == IF p = << >> THEN D ELSE At(Append(RealDir(Front(p)), Last(p)))
Follow(n) == IF n.t = "link" THEN Walk(n.to) ELSE n
\* lexical normal form; "^" stands for a step above the top
Norm(cs) == FoldLeft(LAMBDA acc, c : IF c = "." THEN acc ELSE IF c = ".." THEN (IF acc = << >> \/ Last(acc) = "^" THEN Append(acc, "^") ELSE Front(acc)) ELSE Append(acc, c), << >>, cs)
Inside(p) == Len(p) > 1 /\ p[1] = "R"
Refused == [ok |-> FALSE, p |-> << >>, s |-> 0, a |-> "", l |-> << >>]
\* opt: 0 none, 1 attributes, 3 attributes and symlinks
Describe(cs, opt) ==
   LET p == Norm(cs) n == Walk(p) t == Follow(n) asLink == opt = 3 /\ n.t = "link" IN
   IF n.t = "none" \/ t.t = "none" THEN Refused
   ELSE IF ~Inside(p) THEN Refused
   ELSE IF ~asLink /\ t.t # "file" THEN Refused
   ELSE [ok |-> TRUE, p |-> Tail(p), s |-> IF asLink THEN 0 ELSE t.s,
         a |-> IF opt = 0 THEN "-" ELSE (IF t.t = "file" /\ t.x THEN "x" ELSE "") \o (IF asLink THEN "l" ELSE ""),
         l |-> IF asLink THEN Tail(n.to) ELSE << >>]
=============================================================================
