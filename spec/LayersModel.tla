----------------------------- MODULE LayersModel -----------------------------
(* A piece layer belongs to a root if the tree above it, completed with the     *)
(* hashes of pieces of zero leaves, has that root, and if it has one hash per   *)
(* piece. Files that are not larger than a piece have no layer, only a root;    *)
(* empty and padding files have nothing to tell.                                *)
(* The model takes the right data of a storage and alters it in one file.       *)
EXTENDS Pipeline, TLC, Json
CONSTANTS Ps, MaxFiles
VARIABLES fs, p, alt          \* alt: << >> or <<file, what, k, l>>
vars == <<fs, p, alt>>
NoData == [has |-> FALSE, root |-> << >>, layer |-> << >>]
Right(f, P, i) == IF HasV2(f[i]) THEN [has |-> TRUE, root |-> V2Root(f, i), layer |-> V2Layer(f, i, P)] ELSE NoData
RECURSIVE ZeroTree(_)
ZeroTree(n) == IF n <= 1 THEN << >> ELSE <<ZeroTree(n \div 2), ZeroTree(n \div 2)>>
ZeroPiece(P) == ZeroTree(P \div Block)
Belongs(f, P, d) == IF ~d.has THEN IsPad(f) \/ f.s = 0
                    ELSE IF f.s <= P THEN d.layer = << >>
                    ELSE Len(d.layer) = Ceil(f.s, P) /\ Root(d.layer, ZeroPiece(P)) = d.root
Sz(P) == {0, 1, P, P + 1, 2 * P, 2 * P + 1, 4 * P - 1, 4 * P, 5 * P - 9}
Hashes(f, P) == IF HasV2(f) /\ f.s > P THEN Ceil(f.s, P) ELSE 0
Foreign == <<0, 0, 0>>
Init == fs = << >> /\ p \in Ps /\ alt = << >>
AddFile == /\ Len(fs) < MaxFiles /\ alt = << >>
           /\ \E f \in [s : Sz(p), k : {"file"}] \cup {Pad(p - 1), Pad(3 * p)} : fs' = Append(fs, f) /\ UNCHANGED <<p, alt>>
Alterations(i) ==
   LET n == Hashes(fs[i], p) IN
   {<<i, w, k, 0>> : w \in {"changed", "zero", "short"}, k \in 1..n}
   \cup {x \in {<<i, "swapped", k, l>> : k, l \in 1..n} : x[3] < x[4]}
   \cup {<<i, w, 0, 0>> : w \in {"long: foreign", "long: zero", "long: root", "root", "missing"}}
   \cup (IF n > 0 THEN {<<i, w, 0, 0>> : w \in {"only the root", "empty", "the layer above", "padded", "root is first"}} ELSE {})
   \cup {<<i, w, j, 0>> : w \in {"other layer", "other root", "other file"}, j \in {x \in DOMAIN fs : x # i /\ HasV2(fs[x])}}
Alter == alt = << >> /\ \E i \in DOMAIN fs : HasV2(fs[i]) /\ \E a \in Alterations(i) : alt' = a /\ UNCHANGED <<fs, p>>
Next == AddFile \/ Alter
Spec == Init /\ [][Next]_vars
Altered(d, w, k, l) ==
   LET n == Len(d.layer) IN LET Z == ZeroPiece(p) IN
   CASE w = "changed" -> [d EXCEPT !.layer[k] = Foreign]
     [] w = "zero" -> [d EXCEPT !.layer[k] = Z]
     [] w = "short" -> [d EXCEPT !.layer = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, n)]
     [] w = "swapped" -> [d EXCEPT !.layer[k] = d.layer[l], !.layer[l] = d.layer[k]]
     [] w = "long: foreign" -> [d EXCEPT !.layer = Append(@, Foreign)]
     [] w = "long: zero" -> [d EXCEPT !.layer = Append(@, Z)]
     [] w = "long: root" -> [d EXCEPT !.layer = Append(@, d.root)]
     [] w = "root" -> [d EXCEPT !.root = Foreign]
     [] w = "missing" -> NoData
     [] w = "only the root" -> [d EXCEPT !.layer = <<d.root>>]
     [] w = "empty" -> [d EXCEPT !.layer = << >>]
     [] w = "the layer above" -> [d EXCEPT !.layer = Above(Padded(@, Z))]
     [] w = "padded" -> [d EXCEPT !.layer = Padded(@, Z)]
     [] w = "root is first" -> [d EXCEPT !.root = d.layer[1]]
     [] w = "other layer" -> [d EXCEPT !.layer = Right(fs, p, k).layer]
     [] w = "other root" -> [d EXCEPT !.root = Right(fs, p, k).root]
     [] w = "other file" -> Right(fs, p, k)
Data == [i \in DOMAIN fs |-> LET r == Right(fs, p, i) IN IF alt # << >> /\ alt[1] = i THEN Altered(r, alt[2], alt[3], alt[4]) ELSE r]
\* right data is told to be right; an altered layer is not, unless it is the same (a padded layer can be)
Sane == LET d == Data IN LET v == [i \in DOMAIN fs |-> Belongs(fs[i], p, d[i])] IN
        /\ \A i \in DOMAIN fs : d[i] = Right(fs, p, i) => v[i]
        /\ alt # << >> => LET i == alt[1] IN v[i] =>
               (\/ d[i] = Right(fs, p, i)
                \/ fs[i].s <= p /\ d[i].layer = << >>                      \* no layer to compare a root with
                \/ alt[2] = "other file")
        /\ (fs # << >> => PrintT("LAYER " \o ToJson([files |-> fs, p |-> p, dat |-> d, ok |-> v, alt |-> alt])))
=============================================================================
