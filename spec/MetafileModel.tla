---------------------------- MODULE MetafileModel ----------------------------
EXTENDS Metafile, Json, IOUtils
CONSTANTS What        \* "write", "foreign", "faults", "doubles"
In0 == JsonDeserialize(IOEnv.INPUTS)
VARIABLES kind, m, p, t, at
vars == <<kind, m, p, t, at>>
PS == 16384
Base == [tiers |-> << >>, comment |-> "", creator |-> "", date |-> I(0), coll |-> {}, http |-> << >>, similar |-> {}, web |-> << >>, nodes |-> << >>,
         name |-> "s1", dir |-> "", priv |-> 0, source |-> "", other |-> NoD, cross |-> 0, mode |-> "multi", psize |-> PS, files |-> << >>, pieces |-> << >>]
\* a file of n bytes with digests numbered from k
F(path, n, k) == [path |-> path, size |-> n, attr |-> << >>, link |-> << >>, sums |-> {}, root |-> IF n > 0 THEN k ELSE 0,
                  layer |-> IF n > PS THEN [j \in 1..Ceil(n, PS) |-> 10 * k + j] ELSE << >>]
PadF(n) == [F(<<1, 2>>, n, 0) EXCEPT !.attr = <<{"p"}>>, !.root = 0, !.layer = << >>]
A(f, a) == [f EXCEPT !.attr = <<a>>]
Sums(f, s) == [f EXCEPT !.sums = s]
Ln(path, to) == [F(path, 0, 0) EXCEPT !.attr = <<{"l"}>>, !.link = <<to>>]
Stored(mode, fs) == [mode |-> mode, files |-> fs, pieces |-> [j \in 1..Ceil(Total(fs), PS) |-> 100 + j]]
AllSums == {<<"md5", 1>>, <<"sha1", 2>>, <<"sha256", 3>>, <<"sha512", 4>>}
Storages ==
  << Stored("single", <<F(<<5>>, 1, 1)>>), Stored("single", <<F(<<5>>, PS, 1)>>), Stored("single", <<F(<<6>>, PS + 1, 1)>>), Stored("single", <<F(<<12>>, 3 * PS, 1)>>),
     Stored("single", <<Sums(A(F(<<5>>, 2 * PS + 5, 1), {"x", "h"}), AllSums)>>), Stored("single", <<A(F(<<7>>, 7, 1), {})>>), Stored("single", <<F(<<5>>, 0, 1)>>),
     Stored("multi", <<F(<<5>>, 1, 1)>>), Stored("multi", <<F(<<4, 5>>, 2 * PS, 1)>>),
     Stored("multi", <<F(<<7, 3>>, 5, 1), F(<<4, 9, 2>>, PS + 3, 2), F(<<4, 5>>, PS, 3), F(<<8>>, PS - 1, 4)>>),
     Stored("multi", <<F(<<11>>, 1, 1), F(<<10>>, 2, 2), F(<<9>>, 3, 3), F(<<8>>, 4, 4), F(<<7>>, 5, 5), F(<<6>>, 6, 6), F(<<5, 4>>, 7, 7), F(<<4, 3>>, 8, 8)>>),
     Stored("multi", <<F(<<4>>, 5, 1), PadF(PS - 5), F(<<5>>, PS + 1, 2), PadF(PS - 1), F(<<6>>, 9, 3)>>),
     Stored("multi", <<A(F(<<5>>, 3 * PS, 1), {"x"}), A(F(<<6>>, 4, 2), {"h"}), A(F(<<7>>, 4, 3), {"x", "h"}), A(F(<<8>>, 4, 4), {})>>),
     Stored("multi", <<F(<<4, 5>>, 9, 1), Ln(<<4, 6>>, <<4, 5>>), Ln(<<9>>, <<7>>), A(Ln(<<10>>, <<4, 5>>), {"l", "h"})>>),
     Stored("multi", <<Sums(F(<<5>>, 5, 1), AllSums), Sums(F(<<6>>, 2 * PS + 1, 2), {<<"md5", 9>>}), F(<<7>>, 1, 3)>>),
     Stored("multi", <<F(<<5>>, 0, 0), F(<<6>>, 8, 1), F(<<7, 8>>, 0, 0)>>),
     Stored("multi", <<F(<<5>>, 0, 0), F(<<6>>, 0, 0)>>),
     Stored("multi", <<F(<<5>>, 2 * PS, 1), [F(<<6>>, 2 * PS, 1) EXCEPT !.path = <<6>>], F(<<7, 5>>, 2 * PS, 1)>>),
     Stored("multi", <<F(<<4, 5, 6, 7, 8, 9, 10>>, 3, 1), F(<<4, 5, 6, 7, 8, 9, 11>>, 3, 2), F(<<4, 5, 6, 8>>, 3, 3)>>),
     Stored("multi", <<Sums(A(F(<<5, 7>>, 4 * PS, 1), {"x"}), {<<"sha1", 5>>}), PadF(9), A(F(<<5, 6>>, PS + 7, 2), {"h"}), Ln(<<4>>, <<5, 7>>), F(<<13>>, 0, 0)>>),
     Stored("single", <<Ln(<<5>>, <<6, 7>>)>>), Stored("single", <<A(Ln(<<5>>, <<4>>), {"l", "x"})>>) >>
With(st, x) == [x EXCEPT !.mode = st.mode, !.files = st.files, !.pieces = st.pieces]
\* values of the other fields
Fields == {"tiers", "comment", "creator", "date", "coll", "http", "similar", "web", "nodes", "name", "priv", "source", "other", "cross", "dir", "psize"}
Vals(f) ==
  CASE f = "tiers" -> {<<{1}>>, <<{1, 2}>>, <<{2}, {1}>>, <<{3, 1, 2}, {5, 4}, {6}>>, <<{6}, {5}, {4}, {3}, {2}, {1}>>, <<{7}>>}
    [] f \in {"comment", "creator", "source"} -> {"s1", "s2", "s3", "s4", "s5"}
    [] f = "name" -> {"", "s2", "s3", "s4", "s5"}
    [] f = "date" -> {I(1), I(1605700000), <<"I", "4102444800">>, <<"I", "253402300799">>, I(-5)}
    [] f = "coll" -> {{"s1"}, {"s2", "s1"}, {""}, {"s1", "s2", "s3", "s4"}}
    [] f \in {"http", "web"} -> {<<"s1">>, <<"s2", "s1">>, <<"">>, <<"s4", "s1", "s3">>}
    [] f = "similar" -> {{<<"v1", 1>>}, {<<"v2", 1>>}, {<<"v1", 1>>, <<"v2", 1>>}, {<<"hybrid", 2>>}, {<<"v1", 3>>, <<"v1", 4>>, <<"v2", 5>>, <<"hybrid", 6>>}}
    [] f = "nodes" -> {<<<<"s1", 1>>>>, <<<<"s2", 65535>>, <<"s1", 0>>>>, <<<<"s1", 6881>>, <<"s1", 6882>>, <<"", 80>>>>}
    [] f = "priv" -> {1}
    [] f = "cross" -> {1}
    [] f = "dir" -> {"s1"}
    [] f = "psize" -> {}
    [] f = "other" -> {"zz" :> I(7), "a" :> S("s1"), ("zz" :> L(<<I(1), S("s2"), D("k" :> L(<< >>))>>)) @@ ("publisher" :> S("")), "x" :> D(("b" :> I(-1)) @@ ("a" :> D(NoD)))}
AllOf(st) == [With(st, Base) EXCEPT !.tiers = <<{3, 1, 2}, {5, 4}, {6}>>, !.comment = "s2", !.creator = "s3", !.date = I(1605700000), !.coll = {"s1", "s2"}, !.http = <<"s2", "s1">>,
    !.similar = {<<"v1", 3>>, <<"v2", 5>>}, !.web = <<"s4", "s1">>, !.nodes = <<<<"s1", 6881>>, <<"s2", 65535>>>>, !.name = "s4", !.priv = 1, !.source = "s1", !.other = ("zz" :> L(<<I(1)>>)) @@ ("a" :> S("s5"))]
\* storages whose files all can be hashed for the protocol
Ready(st, q) == TRUE
Metas == {With(Storages[i], Base) : i \in DOMAIN Storages} \cup {AllOf(Storages[i]) : i \in DOMAIN Storages}
   \cup UNION {{[With(Storages[i], Base) EXCEPT ![f] = v] : v \in Vals(f)} : i \in {1, 10, 12}, f \in Fields}
   \cup UNION {{[AllOf(Storages[i]) EXCEPT ![f] = v] : v \in Vals(f)} : i \in {5, 20}, f \in Fields}
   \cup UNION {UNION {{[With(Storages[10], Base) EXCEPT ![f] = v, ![g] = w] : v \in Vals(f), w \in {CHOOSE x \in Vals(g) : TRUE}} : f \in Fields \ {"psize", g}} : g \in Fields \ {"psize"}}
\* metafiles given from outside, sets as sequences
FromJson(x) == [x EXCEPT !.tiers = [i \in DOMAIN @ |-> ToSet(@[i])], !.coll = ToSet(@), !.similar = ToSet(@), !.other = IF @ = << >> THEN NoD ELSE @,
                !.files = [i \in DOMAIN @ |-> [@[i] EXCEPT !.attr = [j \in DOMAIN @ |-> ToSet(@[j])], !.sums = ToSet(@)]]]
Protos == {"v1", "v2", "hybrid"}
\* a hybrid torrent without any data has an empty piece list and reads as v2
Sensible(x, q) == /\ q = "v2" => \E i \in DOMAIN x.files : ~Pad(x.files[i])
                  /\ q = "hybrid" => x.pieces # << >>
                  /\ (q # "v1" /\ Mode(x) = "single") => Len(x.files) = 1

\* trees as other programs write them
RECURSIVE Plainly(_)
Plainly(v) == CASE v[1] = "S" -> L(LET q == SetToSeq(v[2]) IN [j \in DOMAIN q |-> Plainly(q[j])])
                [] v[1] = "l" -> L([j \in DOMAIN v[2] |-> Plainly(v[2][j])])
                [] v[1] = "d" -> D([k \in DOMAIN v[2] |-> Plainly(v[2][k])])
                [] OTHER -> v
Put(v, k, x) == D((k :> x) @@ v[2])
InInfo(v, k, x) == Put(v, "info", Put(At(v, "info"), k, x))
Tier(q) == L([j \in DOMAIN q |-> S(Sym("@u", q[j]))])
Tiers0 == {<< >>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<3>>}
Plain1 == Plainly(Write(With(Storages[10], Base), "v1"))
Plain2 == Plainly(Write(With(Storages[10], Base), "v2"))
Plain3 == Plainly(Write(With(Storages[12], Base), "hybrid"))
Single1 == Plainly(Write(With(Storages[1], Base), "v1"))
WithTr(v, a, l) == D((IF a = 0 THEN NoD ELSE "announce" :> S(Sym("@u", a))) @@ (IF l = << << 0 >> >> THEN NoD ELSE "announce-list" :> L([j \in DOMAIN l |-> Tier(l[j])])) @@ v[2])
TierLists == {<< >>} \cup {<<a>> : a \in Tiers0} \cup {<<a, b>> : a, b \in Tiers0} \cup {<<a, b, c>> : a, b, c \in Tiers0}
Foreign == {WithTr(Plain1, a, l) : a \in {0, 1, 2, 5}, l \in TierLists \cup {<<<<0>>>>}}
   \cup {D(("announce" :> S("@u3")) @@ Plain2[2]), D(("announce" :> S("@u3")) @@ Plain3[2])}
   \cup {Put(v, "announce-list", L(<<Tier(<<2, 1>>), Tier(<<4>>)>>)) : v \in {Plain2, Plain3}}
   \cup UNION {{InInfo(v, "collections", L(<<S("s2"), S("s1")>>)), Put(InInfo(v, "collections", L(<<S("s2")>>)), "collections", L(<<S("s3"), S("s2")>>)),
                InInfo(v, "similar", L(<<Bin(20, <<1>>), Bin(32, <<2>>)>>)), Put(InInfo(v, "similar", L(<<Bin(20, <<1>>)>>)), "similar", L(<<Bin(32, <<1>>), Bin(20, <<1>>), Bin(20, <<2>>)>>)),
                InInfo(v, "private", I(1)), InInfo(v, "private", I(0)), InInfo(v, "zz", D("q" :> I(3))), Put(v, "zz", L(<<I(1)>>)), InInfo(v, "source", S("")), InInfo(v, "source", S("s3")),
                Put(v, "httpseeds", L(<<S("s1"), S("s2"), S("s1")>>)), Put(v, "url-list", L(<<S("s2"), S("s1"), S("s2")>>)), Put(v, "url-list", L(<< >>)),
                Put(v, "nodes", L(<<L(<<S("s1"), I(1)>>), L(<<S("s1"), I(1)>>), L(<<S("s1"), I(2)>>)>>)), Put(v, "comment", S("")), Put(v, "creation date", I(0)),
                Put(v, "collections", L(<<S("s1"), S("s1")>>)), Put(v, "encoding", S("s1"))} : v \in {Plain1, Plain2, Plain3, Single1}}
   \cup {InInfo(Plain1, "meta version", I(1)), InInfo(Single1, "attr", S("hx")), InInfo(Single1, "attr", S("xx")), InInfo(Single1, "md5", Bin(16, <<3>>)), InInfo(Plain1, "md5", Bin(16, <<3>>)), InInfo(Plain1, "attr", S("x")),
         InInfo(Plain2, "sha1", Bin(20, <<3>>)), Put(Plain2, "piece layers", D(("@r9" :> Bin(32, <<1>>)) @@ At(Plain2, "piece layers")[2]))}

\* faults: one part of a well-formed tree deleted, replaced or changed
Bases == <<Plainly(Write(AllOf(Storages[10]), "v1")), Plainly(Write(AllOf(Storages[5]), "v1")), Plainly(Write(AllOf(Storages[20]), "v2")), Plainly(Write(With(Storages[10], Base), "v2")),
           Plainly(Write(AllOf(Storages[12]), "hybrid")), Plainly(Write(With(Storages[4], Base), "hybrid")), Plainly(Write(With(Storages[14], Base), "v1")), Plainly(Write(With(Storages[14], Base), "hybrid"))>>
RECURSIVE Nodes(_)
Nodes(v) == {<< >>} \cup (IF v[1] = "d" THEN UNION {{<<<<"k", k>>>> \o q : q \in Nodes(v[2][k])} : k \in DOMAIN v[2]}
                          ELSE IF v[1] = "l" THEN UNION {{<<<<"n", j>>>> \o q : q \in Nodes(v[2][j])} : j \in DOMAIN v[2]} ELSE {})
RECURSIVE Sub(_, _)
Sub(v, q) == IF q = << >> THEN v ELSE Sub(v[2][Head(q)[2]], Tail(q))
RECURSIVE Repl(_, _, _)
Repl(v, q, x) == IF q = << >> THEN x
    ELSE IF Head(q)[1] = "k" THEN D([k \in DOMAIN v[2] |-> IF k = Head(q)[2] THEN Repl(v[2][k], Tail(q), x) ELSE v[2][k]])
    ELSE L([j \in DOMAIN v[2] |-> IF j = Head(q)[2] THEN Repl(v[2][j], Tail(q), x) ELSE v[2][j]])
Fresh == <<I(-1), I(0), I(1), I(2), I(3), I(PS), I(PS + 1), I(65536), I(8192), <<"I", "9223372036854775807">>, <<"I", "-9223372036854775808">>, <<"I", "4294967297">>, S(""), S("x"), Bin(20, <<7>>), Bin(32, <<8>>),
           L(<< >>), L(<<I(1)>>), L(<<S("x")>>), L(<<L(<<S("x")>>)>>), D(NoD), D("zz" :> I(1)), D("" :> I(1)), D("" :> D(NoD))>>
DropKey(v, k) == D([x \in DOMAIN v[2] \ {k} |-> v[2][x]])
\* the trees made from v by one fault at q; DOMAIN of the sequence is the same for all nodes with the same kind of value
FaultsAt(v, q) == LET x == Sub(v, q) IN
    [i \in DOMAIN Fresh |-> Repl(v, q, Fresh[i])]
    \o (IF q # << >> /\ Last(q)[1] = "k" THEN <<Repl(v, Front(q), DropKey(Sub(v, Front(q)), Last(q)[2]))>> ELSE << >>)
    \o (IF q # << >> /\ Last(q)[1] = "n" THEN <<Repl(v, Front(q), L(RemoveAt(Sub(v, Front(q))[2], Last(q)[2]))), Repl(v, Front(q), L(Append(Sub(v, Front(q))[2], x)))>> ELSE << >>)
    \o (IF x[1] = "b" THEN <<Repl(v, q, [x EXCEPT ![4] = 1]), Repl(v, q, [x EXCEPT ![4] = -1]), Repl(v, q, [x EXCEPT ![3] = Append(@, 90)]), Repl(v, q, [x EXCEPT ![3] = [j \in DOMAIN @ |-> 91]])>> ELSE << >>)
    \o (IF x[1] = "i" THEN <<Repl(v, q, I(x[2] + 1)), Repl(v, q, I(x[2] + PS))>> ELSE << >>)
    \o (IF x[1] = "d" THEN <<Repl(v, q, Put(x, "zz", I(1))), Repl(v, q, Put(x, "zz", D(NoD))), Repl(v, q, Put(x, "@c20", D("" :> D(("length" :> I(5)) @@ ("pieces root" :> Bin(32, <<77>>))))))>> ELSE << >>)
    \o (IF x[1] = "s" /\ x[2] \in AttrTexts THEN <<Repl(v, q, S("q")), Repl(v, q, S("l")), Repl(v, q, S("p")), Repl(v, q, S("lp")), Repl(v, q, S("xh"))>> ELSE << >>)
Picked(v, a, b) == LET ns == SetToSeq(Nodes(v))
                       q == ns[1 + (a % Len(ns))]
                       fs == FaultsAt(v, q)
                   IN fs[1 + (b % Len(fs))]

Init == /\ at = << >>
  /\ \/ /\ What = "write" /\ kind = "write" /\ t = S("") /\ p \in Protos
        /\ \/ m \in Metas \/ \E i \in DOMAIN In0.metas : m = FromJson(In0.metas[i])
        /\ Sensible(m, p)
     \/ /\ What = "foreign" /\ kind = "read" /\ m = 0 /\ p = "" /\ t \in Foreign
     \/ /\ What = "faults" /\ kind = "base" /\ m = 0 /\ p = "" /\ t \in ToSet(Bases)
     \/ /\ What = "doubles" /\ kind = "read" /\ m = 0 /\ p = "" /\ \E i \in DOMAIN In0.picks : LET k == In0.picks[i] IN t = Picked(Picked(Bases[1 + (k[1] % Len(Bases))], k[2], k[3]), k[4], k[5])
Next == /\ kind = "base" /\ kind' = "read" /\ UNCHANGED <<m, p>> /\ \E q \in Nodes(t) : at' = q /\ \E i \in DOMAIN FaultsAt(t, q) : t' = FaultsAt(t, q)[i]
Spec == Init /\ [][Next]_vars
View == <<kind, m, p, t>>

WrittenIsRead == kind = "write" => LET w == Plainly(Write(m, p)) IN Good(w) /\ (Verdict(w) = "read" => MetaOf(w) = Kept(m, p))
\* the metafile read is written the same again
Again == kind = "write" => Write(Kept(m, p), p) = Write(m, p)
\* only the fields of the info dictionary decide it
OuterFree == kind = "write" /\ m.cross = 0 => Info([Base EXCEPT !.name = m.name, !.dir = m.dir, !.priv = m.priv, !.source = m.source, !.other = m.other, !.mode = m.mode, !.psize = m.psize, !.files = m.files, !.pieces = m.pieces], p) = Info(m, p)
\* sizes are only compared and counted in pieces: with all of them k times as large, the same is written with the sizes k times as large
ScaledM(x, k) == [x EXCEPT !.psize = k * @, !.files = [i \in DOMAIN @ |-> [@[i] EXCEPT !.size = k * @]]]
RECURSIVE ScaledT(_, _)
ScaledT(v, k) == CASE v[1] = "d" -> D([x \in DOMAIN v[2] |-> IF x \in {"length", "piece length"} THEN I(k * v[2][x][2]) ELSE ScaledT(v[2][x], k)])
                   [] v[1] = "l" -> L([j \in DOMAIN v[2] |-> ScaledT(v[2][j], k)])
                   [] OTHER -> v
Homogeneous == (kind = "write" /\ Total(m.files) < 2 ^ 29) => Write(ScaledM(m, 2), p) = ScaledT(Write(m, p), 2) /\ Kept(ScaledM(m, 2), p) = ScaledM(Kept(m, p), 2)
ProtoOf(v) == LET i == At(v, "info") IN IF Hybrid(i) THEN "hybrid" ELSE IF V2(i) THEN "v2" ELSE "v1"
ReadIsKept == kind = "read" /\ Verdict(t) = "read" => LET x == MetaOf(t) IN MetaOf(Plainly(Write(x, ProtoOf(t)))) = x
\* edits of a metafile around cross seeding, and which of them leave the info dictionary the same: for each the first that has the same
Off(x) == [x EXCEPT !.cross = 0]
On(x) == [x EXCEPT !.cross = 1]
More(x) == [x EXCEPT !.tiers = Append(@, {0})]
Edited(x) == [x EXCEPT !.comment = "s5", !.date = I(78), !.web = Append(@, "s9")]
\* other announce URLs, however alike they are to read: scheme, case, host, port, path, query, and pairs of them in one tier
Only(x, us) == [x EXCEPT !.tiers = <<us>>]
Alike == [i \in 1..12 |-> {100 + i}] \o <<{101, 102}, {101, 103}, {102, 103}>>
CrossEdits == <<m, Off(m), On(m), More(On(m)), Edited(More(On(m))), Edited(On(m)), Edited(Off(m)), Edited(More(Off(m))), On(m)>>
              \o [i \in DOMAIN Alike |-> Only(On(m), Alike[i])] \o <<Only(Off(m), Alike[1]), Only(On(m), Alike[1])>>
CrossClasses == LET es == TLCEval(CrossEdits) infos == TLCEval([i \in DOMAIN es |-> Info(es[i], p)]) IN [i \in DOMAIN es |-> Min({j \in 1..i : infos[j] = infos[i]})]
Emit == CASE kind = "write" -> PrintT("WRITE " \o ToJson([cross |-> CrossClasses, m |-> m, p |-> p, tree |-> Write(m, p), kept |-> Kept(m, p), open |-> Verdict(Plainly(Write(m, p))) # "read"]))
          [] kind \in {"read", "base"} -> LET v == Verdict(t) IN PrintT("READ " \o ToJson([t |-> t, v |-> v, m |-> IF v = "read" THEN MetaOf(t) ELSE 0, w |-> IF v = "read" THEN Write(MetaOf(t), ProtoOf(t)) ELSE 0, p |-> IF v = "read" THEN ProtoOf(t) ELSE ""]))
==============================================================================
