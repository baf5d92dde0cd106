------------------------------- MODULE Metafile -------------------------------
(* A metafile, the tree of a torrent file written for it, and reading a tree.   *)
(*                                                                              *)
(* Trees:  <<"s", text>>            a string                                    *)
(*         <<"b", n, ids, x>>       a string of Len(ids) digests of n bytes     *)
(*                                  each, x bytes longer (x < 0: shorter)       *)
(*         <<"i", number>>  <<"I", text>>   numbers, beyond 32 bits as text     *)
(*         <<"l", sequence>>  <<"d", function from keys>>                       *)
(*         <<"S", set>>             a list whose order is free                  *)
(*         <<"?", x>>               any string, the same for the same x         *)
(* Texts starting with @ stand for others: @c7 the seventh file name (names are *)
(* numbered in byte order), @u3 the third URL, @r5 the root digest number 5.    *)
(*                                                                              *)
(* Metafile: tiers (sequence of sets of URL numbers), comment, creator, date,   *)
(* coll, http, similar, web, nodes | name, priv, source, other, cross | mode,   *)
(* psize, files, pieces (digest numbers).  A file: path (name numbers), size,   *)
(* attr (<< >> or <<set of letters>>), link (<< >> or <<path>>), sums (set of   *)
(* <<algorithm, number>>), root (0: none), layer (digest numbers).              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC
NoD == [x \in {} |-> 0]
S(x) == <<"s", x>>
I(x) == <<"i", x>>
L(x) == <<"l", x>>
D(f) == <<"d", f>>
Bin(n, ids) == <<"b", n, ids, 0>>
\* a dictionary entry that is there under a condition
Opt(c, k, v) == IF c THEN k :> v ELSE NoD
Sym(p, i) == p \o ToString(i)
Comp(i) == Sym("@c", i)
SortInts(s) == SetToSortSeq(s, <)

AttrText(a) == (IF "x" \in a THEN "x" ELSE "") \o (IF "l" \in a THEN "l" ELSE "") \o (IF "h" \in a THEN "h" ELSE "") \o (IF "p" \in a THEN "p" ELSE "")
AttrSets == SUBSET {"x", "l", "h", "p"}
\* other spellings a reader understands
AttrAlias == ("hx" :> {"x", "h"}) @@ ("xx" :> {"x"}) @@ ("ph" :> {"h", "p"})
AttrTexts == {AttrText(a) : a \in AttrSets} \cup DOMAIN AttrAlias
AttrOf(t) == IF t \in DOMAIN AttrAlias THEN AttrAlias[t] ELSE CHOOSE a \in AttrSets : AttrText(a) = t
Algos == ("md5" :> 16) @@ ("sha1" :> 20) @@ ("sha256" :> 32) @@ ("sha512" :> 64)

Flag(f, c) == f.attr # << >> /\ c \in f.attr[1]
Pad(f) == Flag(f, "p")
IsLink(f) == Flag(f, "l")
Ceil(a, b) == (a + b - 1) \div b
Total(fs) == FoldLeft(LAMBDA a, f : a + f.size, 0, fs)
Mode(st) == IF Len(st.files) > 1 THEN "multi" ELSE st.mode
\* order of the file tree: name by name
RECURSIVE Before(_, _)
Before(p, q) == IF p = << >> THEN q # << >> ELSE IF q = << >> THEN FALSE ELSE IF Head(p) # Head(q) THEN Head(p) < Head(q) ELSE Before(Tail(p), Tail(q))

-------------------------------------------------------------------------------
(* Writing *)
PathList(p) == L([i \in DOMAIN p |-> S(Comp(p[i]))])
SumEntries(f) == FoldSet(LAMBDA s, acc : (s[1] :> Bin(Algos[s[1]], <<s[2]>>)) @@ acc, NoD, f.sums)
AttrEntries(f) == Opt(f.attr # << >>, "attr", S(AttrText(IF f.attr = << >> THEN {} ELSE f.attr[1])))
                  @@ Opt(IsLink(f), "symlink path", IF f.link = << >> THEN L(<< >>) ELSE PathList(f.link[1]))
FileV1(f) == D(("length" :> I(f.size)) @@ ("path" :> PathList(f.path)) @@ AttrEntries(f) @@ SumEntries(f))
FileV2(f, sums) == D(("length" :> I(f.size)) @@ Opt(f.size > 0, "pieces root", Bin(32, <<f.root>>)) @@ AttrEntries(f) @@ (IF sums THEN SumEntries(f) ELSE NoD))
\* the tree of the files (pairs of the rest of the path and the entry)
RECURSIVE Tree(_)
Tree(es) == LET heads == {Head(e[1]) : e \in es}
                sub(h) == {<<Tail(e[1]), e[2]>> : e \in {x \in es : Head(x[1]) = h}}
                leaf(h) == CHOOSE e \in sub(h) : e[1] = << >>
            IN D([k \in {Comp(h) : h \in heads} |->
                    LET h == CHOOSE x \in heads : Comp(x) = k
                    IN IF \E e \in sub(h) : e[1] = << >> THEN D("" :> leaf(h)[2]) ELSE Tree(sub(h))])
Regular(st) == SelectSeq(st.files, LAMBDA f : ~Pad(f))
FileTree(st, sums) == LET fs == Regular(st) IN Tree({<<fs[i].path, FileV2(fs[i], sums)>> : i \in DOMAIN fs})

NameOf(m) == IF m.name # "" THEN m.name ELSE m.dir
\* cross seeding ties the info dictionary to the trackers
CrossEntry(m) == <<"?", UNION ToSet(m.tiers)>>
CommonInfo(m) == ("piece length" :> I(m.psize)) @@ Opt(m.priv = 1, "private", I(1)) @@ Opt(m.source # "", "source", S(m.source))
                 @@ m.other @@ Opt(m.cross = 1, "cross_seed_entry", CrossEntry(m))
\* a single file is described in the dictionary itself, under its own name
SingleInfo(f) == ("length" :> I(f.size)) @@ ("name" :> S(Comp(Last(f.path)))) @@ AttrEntries(f) @@ SumEntries(f)
ListInfo(m) == IF Mode(m) = "single" THEN SingleInfo(m.files[1])
               ELSE ("files" :> L([i \in DOMAIN m.files |-> FileV1(m.files[i])])) @@ ("name" :> S(NameOf(m)))
InfoV1(m) == D(CommonInfo(m) @@ ListInfo(m) @@ ("pieces" :> Bin(20, m.pieces)))
InfoV2(m) == D(CommonInfo(m) @@ ("meta version" :> I(2)) @@ ("name" :> S(NameOf(m))) @@ ("file tree" :> FileTree(m, TRUE)))
InfoHy(m) == D(CommonInfo(m) @@ ListInfo(m) @@ ("pieces" :> Bin(20, m.pieces)) @@ ("meta version" :> I(2)) @@ ("file tree" :> FileTree(m, FALSE)))
Info(m, p) == CASE p = "v1" -> InfoV1(m) [] p = "v2" -> InfoV2(m) [] p = "hybrid" -> InfoHy(m)

Urls(t) == L([i \in DOMAIN SortInts(t) |-> S(Sym("@u", SortInts(t)[i]))])
Strings(q) == L([i \in DOMAIN q |-> S(q[i])])
HashStrings(h) == (IF h[1] \in {"v1", "hybrid"} THEN {Bin(20, <<h[2]>>)} ELSE {}) \cup (IF h[1] \in {"v2", "hybrid"} THEN {Bin(32, <<h[2]>>)} ELSE {})
Outer(m) == Opt(m.tiers # << >>, "announce", IF m.tiers = << >> THEN S("") ELSE S(Sym("@u", Min(m.tiers[1]))))
         @@ Opt(m.tiers # << >>, "announce-list", L([i \in DOMAIN m.tiers |-> Urls(m.tiers[i])]))
         @@ Opt(m.comment # "", "comment", S(m.comment)) @@ Opt(m.creator # "", "created by", S(m.creator))
         @@ Opt(m.date # I(0), "creation date", m.date)
         @@ Opt(m.coll # {}, "collections", <<"S", {S(x) : x \in m.coll}>>)
         @@ Opt(m.http # << >>, "httpseeds", Strings(m.http))
         @@ Opt(m.similar # {}, "similar", <<"S", UNION {HashStrings(h) : h \in m.similar}>>)
         @@ Opt(m.web # << >>, "url-list", Strings(m.web))
         @@ Opt(m.nodes # << >>, "nodes", L([i \in DOMAIN m.nodes |-> L(<<S(m.nodes[i][1]), I(m.nodes[i][2])>>)]))
BigFiles(m) == {i \in DOMAIN m.files : m.files[i].size > m.psize /\ ~Pad(m.files[i])}
Layers(m) == D([k \in {Sym("@r", m.files[i].root) : i \in BigFiles(m)} |->
                 LET i == CHOOSE x \in BigFiles(m) : Sym("@r", m.files[x].root) = k IN Bin(32, m.files[i].layer)])
Write(m, p) == D(Outer(m) @@ ("info" :> Info(m, p)) @@ Opt(p # "v1", "piece layers", Layers(m)))

\* what of a metafile a file written for the protocol can hold
KeepV2(f) == [f EXCEPT !.layer = << >>]
Kept(m, p) ==
    LET sym == UNION {{<<IF b[2] = 20 THEN "v1" ELSE "v2", b[3][1]>> : b \in HashStrings(h)} : h \in m.similar}
        m1 == [m EXCEPT !.similar = sym, !.dir = "", !.cross = 0, !.name = IF p # "v2" /\ Mode(m) = "single" THEN Comp(Last(m.files[1].path)) ELSE NameOf(m),
                        !.other = @ @@ Opt(m.cross = 1, "cross_seed_entry", CrossEntry(m))]
        plain(f) == [f EXCEPT !.root = 0, !.layer = << >>, !.link = IF IsLink(f) THEN @ ELSE << >>]
        tree(f) == [f EXCEPT !.layer = IF f.size > m.psize /\ ~Pad(f) THEN @ ELSE << >>, !.root = IF f.size > 0 /\ ~Pad(f) THEN @ ELSE 0, !.link = IF IsLink(f) THEN @ ELSE << >>]
        single(f) == IF p # "v2" /\ Mode(m) = "single" THEN [f EXCEPT !.path = <<Last(@)>>] ELSE f
    IN CASE p = "v1" -> [m1 EXCEPT !.files = [i \in DOMAIN @ |-> single(plain(@[i]))], !.mode = Mode(m)]
         [] p = "v2" -> [m1 EXCEPT !.files = SortSeq([i \in DOMAIN Regular(m) |-> tree(Regular(m)[i])], LAMBDA a, b : Before(a.path, b.path)), !.pieces = << >>, !.mode = "any"]
         [] p = "hybrid" -> [m1 EXCEPT !.files = [i \in DOMAIN @ |-> single(tree(@[i]))], !.mode = Mode(m)]

-------------------------------------------------------------------------------
(* Reading: a tree is refused, read as a metafile, or neither is demanded       *)
IsS(v) == v[1] \in {"s", "b", "?"}
IsI(v) == v[1] \in {"i", "I"}
IsD(v) == v[1] = "d"
IsL(v) == v[1] \in {"l", "S"}
Items(v) == IF v[1] = "S" THEN v[2] ELSE ToSet(v[2])
Has(v, k) == k \in DOMAIN v[2]
At(v, k) == v[2][k]
Size(v) == IF v[1] = "b" THEN v[2] * Len(v[3]) + v[4] ELSE IF v[2] = "" THEN 0 ELSE 1      \* other texts are never 20 or 32 long
Small(v) == v[1] = "i" /\ v[2] >= 0
If(t, k, ok(_)) == Has(t, k) => ok(At(t, k))
StrList(v) == IsL(v) /\ \A x \in Items(v) : IsS(x)

OuterOk(t) ==
    /\ If(t, "announce", IsS) /\ If(t, "comment", IsS) /\ If(t, "created by", IsS) /\ If(t, "creation date", IsI)
    /\ If(t, "announce-list", LAMBDA v : IsL(v) /\ \A x \in Items(v) : StrList(x))
    /\ If(t, "collections", StrList) /\ If(t, "httpseeds", StrList) /\ If(t, "url-list", StrList)
    /\ If(t, "similar", LAMBDA v : StrList(v) /\ \A x \in Items(v) : Size(x) \in {20, 32})
    /\ If(t, "nodes", LAMBDA v : IsL(v) /\ \A x \in Items(v) : x[1] = "l" /\ Len(x[2]) = 2 /\ IsS(x[2][1]) /\ Small(x[2][2]) /\ x[2][2][2] <= 65535)
PsizeOk(v) == v[1] = "i" /\ v[2] \in {2 ^ e : e \in 14..30}
IsPathList(v) == IsL(v) /\ (\A x \in Items(v) : IsS(x))
AttrOk(d) == /\ If(d, "attr", LAMBDA v : IsS(v) /\ v[1] = "s" /\ v[2] \in AttrTexts)
             /\ If(d, "symlink path", IsPathList)
             /\ (Has(d, "attr") /\ "l" \in AttrOf(At(d, "attr")[2])) => (Has(d, "symlink path") /\ At(d, "length") = I(0))
             /\ \A a \in DOMAIN Algos : If(d, a, LAMBDA v : IsS(v) /\ Size(v) = Algos[a])
LengthOk(d) == Has(d, "length") /\ Small(At(d, "length"))
FileV1Ok(d) == IsD(d) /\ LengthOk(d) /\ Has(d, "path") /\ IsPathList(At(d, "path")) /\ At(d, "path")[2] # << >> /\ AttrOk(d)
\* files of a file tree as pairs of path and dictionary; anything that is no dictionary is marked
RECURSIVE Leaves(_, _)
Leaves(v, pre) == IF ~IsD(v) THEN {<<pre, <<"bad">>>>}
    ELSE UNION {IF k = "" THEN {<<pre, At(v, k)>>} ELSE Leaves(At(v, k), Append(pre, k)) : k \in DOMAIN v[2]}
FileV2Ok(d) == IsD(d) /\ LengthOk(d) /\ AttrOk(d) /\ (At(d, "length")[2] > 0 => Has(d, "pieces root")) /\ If(d, "pieces root", LAMBDA v : IsS(v) /\ Size(v) = 32)
TreeOk(v) == IsD(v) /\ \A e \in Leaves(v, << >>) : e[1] # << >> /\ FileV2Ok(e[2])
FilesV1Ok(i) == IF Has(i, "files") THEN IsL(At(i, "files")) /\ \A x \in Items(At(i, "files")) : FileV1Ok(x)
                ELSE Has(i, "name") /\ LengthOk(i) /\ AttrOk(i)
DictsV1(i) == IF Has(i, "files") THEN At(i, "files")[2] ELSE <<D([k \in (DOMAIN i[2] \cap ({"length", "attr", "symlink path"} \cup DOMAIN Algos)) |-> At(i, k)] @@ ("path" :> L(<<At(i, "name")>>)))>>
SumLen(ds) == FoldLeft(LAMBDA a, d : a + At(d, "length")[2], 0, ds)
PiecesOk(i) == Has(i, "pieces") /\ IsS(At(i, "pieces")) /\ Size(At(i, "pieces")) = 20 * Ceil(SumLen(DictsV1(i)), At(i, "piece length")[2])
LayersOk(t, i) == Has(t, "piece layers") /\ IsD(At(t, "piece layers")) /\
    \A e \in Leaves(At(i, "file tree"), << >>) : LET d == e[2] IN At(d, "length")[2] > At(i, "piece length")[2] =>
        LET r == At(d, "pieces root") IN r[1] = "b" /\ r[4] = 0 /\
           LET k == Sym("@r", r[3][1]) IN Has(At(t, "piece layers"), k) /\ IsS(At(At(t, "piece layers"), k))
              /\ Size(At(At(t, "piece layers"), k)) = 32 * Ceil(At(d, "length")[2], At(i, "piece length")[2])
PathKeys(v) == [j \in DOMAIN v[2] |-> IF v[2][j][1] = "s" THEN v[2][j][2] ELSE "?"]
PadD(d) == Has(d, "attr") /\ "p" \in AttrOf(At(d, "attr")[2])
\* both descriptions of a hybrid torrent list the same files
Agree(i) == LET ds == DictsV1(i)
                ls == Leaves(At(i, "file tree"), << >>)
            IN /\ \A e \in ls : \E j \in DOMAIN ds : PathKeys(At(ds[j], "path")) = e[1] /\ At(ds[j], "length") = At(e[2], "length")
               /\ \A j \in DOMAIN ds : (At(ds[j], "length")[2] > 0 /\ ~PadD(ds[j])) => \E e \in ls : PathKeys(At(ds[j], "path")) = e[1]
InfoOk(i) == /\ If(i, "private", LAMBDA v : v \in {I(0), I(1)}) /\ If(i, "name", IsS) /\ If(i, "source", IsS)
             /\ If(i, "collections", StrList) /\ If(i, "similar", LAMBDA v : StrList(v) /\ \A x \in Items(v) : Size(x) \in {20, 32})
             /\ Has(i, "piece length") /\ PsizeOk(At(i, "piece length"))
             /\ If(i, "meta version", LAMBDA v : v \in {I(1), I(2)})
V2(i) == Has(i, "meta version") /\ At(i, "meta version") = I(2)
Hybrid(i) == V2(i) /\ Has(i, "pieces") /\ Size(At(i, "pieces")) # 0
Good(t) == /\ IsD(t) /\ OuterOk(t) /\ Has(t, "info") /\ IsD(At(t, "info"))
           /\ LET i == At(t, "info") IN
              /\ InfoOk(i)
              /\ V2(i) => If(i, "pieces", IsS)
              /\ IF ~V2(i) THEN FilesV1Ok(i) /\ PiecesOk(i)
                 ELSE Has(i, "file tree") /\ TreeOk(At(i, "file tree")) /\ LayersOk(t, i) /\ (Hybrid(i) => FilesV1Ok(i) /\ PiecesOk(i) /\ Agree(i))

\* trees about which the formats say too little: neither refusing nor reading them is demanded
RECURSIVE HasEmptyDir(_)
HasEmptyDir(v) == DOMAIN v[2] = {} \/ \E k \in DOMAIN v[2] : k # "" /\ HasEmptyDir(At(v, k))
RECURSIVE FileAndDir(_)
FileAndDir(v) == ("" \in DOMAIN v[2] /\ Cardinality(DOMAIN v[2]) > 1) \/ \E k \in DOMAIN v[2] : k # "" /\ FileAndDir(At(v, k))
AllComps == {Comp(i) : i \in 1..40}
OddPath(v) == v[1] # "l" \/ \E j \in DOMAIN v[2] : v[2][j][1] # "s" \/ v[2][j][2] \notin AllComps
OddFile(d) == (Has(d, "path") /\ OddPath(At(d, "path"))) \/ (Has(d, "symlink path") /\ (OddPath(At(d, "symlink path")) \/ ~Has(d, "attr") \/ "l" \notin AttrOf(At(d, "attr")[2])))
              \/ PathKeys(At(d, "path")) = << >> \/ (Has(d, "symlink path") /\ At(d, "symlink path")[2] = << >>)
Twice(q) == \E a, b \in DOMAIN q : a < b /\ q[a] = q[b]
OddTree(v) == HasEmptyDir(v) \/ FileAndDir(v) \/ \E e \in Leaves(v, << >>) : (\E j \in DOMAIN e[1] : e[1][j] \notin AllComps) \/ (Has(e[2], "attr") /\ "p" \in AttrOf(At(e[2], "attr")[2]))
Open(t) == LET i == At(t, "info") IN
    \/ ~Has(i, "name") \/ At(i, "name")[1] # "s"
    \/ (~V2(i) \/ Hybrid(i)) /\ (At(i, "name")[2] = "" \/ (Has(i, "files") /\ (Has(i, "length") \/ At(i, "files")[1] = "S")) \/ (\E j \in DOMAIN DictsV1(i) : OddFile(DictsV1(i)[j]))
                                 \/ Twice([z \in DOMAIN DictsV1(i) |-> PathKeys(At(DictsV1(i)[z], "path"))]))
    \/ ~V2(i) /\ (Has(i, "file tree") \/ Has(t, "piece layers") \/ (Has(i, "files") /\ At(i, "files")[2] = << >>))
    \/ V2(i) /\ (OddTree(At(i, "file tree")) \/ \E e \in Leaves(At(i, "file tree"), << >>) : OddFile(D(e[2][2] @@ ("path" :> L(<<S("@c1")>>)))))
    \/ V2(i) /\ ~Hybrid(i) /\ (Has(i, "pieces") \/ Has(i, "files") \/ Has(i, "length"))
    \/ Hybrid(i) /\ \E j \in DOMAIN DictsV1(i) : (~PadD(DictsV1(i)[j])) /\ \A e \in Leaves(At(i, "file tree"), << >>) : e[1] # PathKeys(At(DictsV1(i)[j], "path"))
    \* attributes of the two descriptions of a hybrid torrent that differ
    \/ Hybrid(i) /\ \E j \in DOMAIN DictsV1(i), e \in Leaves(At(i, "file tree"), << >>) : e[1] = PathKeys(At(DictsV1(i)[j], "path")) /\
           \E k \in {"attr", "symlink path"} : Has(e[2], k) # Has(DictsV1(i)[j], k) \/ (Has(e[2], k) /\ At(e[2], k) # At(DictsV1(i)[j], k))
    \/ Has(i, "cross_seed_entry") /\ At(i, "cross_seed_entry")[1] # "?"

CompNo(k) == CHOOSE n \in 1..40 : Comp(n) = k
PathNos(ks) == [j \in DOMAIN ks |-> CompNo(ks[j])]
FileOf(d, path, p) ==
    [path |-> path, size |-> At(d, "length")[2], attr |-> IF Has(d, "attr") THEN <<AttrOf(At(d, "attr")[2])>> ELSE << >>,
     link |-> IF Has(d, "symlink path") THEN <<PathNos(PathKeys(At(d, "symlink path")))>> ELSE << >>,
     sums |-> {<<a, At(d, a)[3][1]>> : a \in DOMAIN Algos \cap DOMAIN d[2]},
     root |-> IF Has(d, "pieces root") /\ At(d, "length")[2] > 0 THEN At(d, "pieces root")[3][1] ELSE 0, layer |-> << >>]
UrlNo(x) == CHOOSE n \in 1..40 : Sym("@u", n) = x
\* trackers: each URL once, where it is listed first; empty tiers vanish; an announce URL that is not listed comes first
RECURSIVE TidyTiers(_, _)
TidyTiers(q, seen) == IF q = << >> THEN << >> ELSE LET x == {UrlNo(v[2]) : v \in ToSet(Head(q)[2])} \ seen
                      IN (IF x = {} THEN << >> ELSE <<x>>) \o TidyTiers(Tail(q), seen \cup x)
TiersOf(t) == LET l == IF Has(t, "announce-list") THEN TidyTiers(At(t, "announce-list")[2], {}) ELSE << >> IN
    IF ~Has(t, "announce") THEN l ELSE LET u == UrlNo(At(t, "announce")[2]) IN IF \E j \in DOMAIN l : u \in l[j] THEN l ELSE <<{u}>> \o l
OddTrackers(t) == LET ok(x) == x[1] = "s" /\ \E n \in 1..40 : Sym("@u", n) = x[2] IN
    (Has(t, "announce") /\ ~ok(At(t, "announce"))) \/ (Has(t, "announce-list") /\ (At(t, "announce-list")[1] # "l" \/ \E x \in Items(At(t, "announce-list")) : x[1] # "l" \/ \E y \in Items(x) : ~ok(y)))
Once(q) == FoldLeft(LAMBDA acc, x : IF \E j \in DOMAIN acc : acc[j] = x THEN acc ELSE Append(acc, x), << >>, q)
Text(t, k) == IF Has(t, k) THEN At(t, k)[2] ELSE ""
Texts(t, k) == IF Has(t, k) THEN Once([j \in DOMAIN At(t, k)[2] |-> At(t, k)[2][j][2]]) ELSE << >>
InBoth(t, k) == (IF Has(t, k) THEN Items(At(t, k)) ELSE {}) \cup (IF Has(At(t, "info"), k) THEN Items(At(At(t, "info"), k)) ELSE {})
KnownInfo(i) == {"name", "files", "length", "file tree", "piece length", "pieces", "meta version", "private", "source"}
                \cup (IF (~V2(i) \/ Hybrid(i)) /\ ~Has(i, "files") THEN {"attr", "symlink path"} \cup DOMAIN Algos ELSE {})
\* texts the model cannot name (mutated binary strings in text fields and the like)
Odd(t) == LET plain(k) == Has(t, k) => At(t, k)[1] = "s"
              plains(k) == Has(t, k) => At(t, k)[1] = "l" /\ \A x \in Items(At(t, k)) : x[1] = "s" IN
    ~(plain("comment") /\ plain("created by") /\ plains("httpseeds") /\ plains("url-list")
      /\ (Has(At(t, "info"), "source") => At(At(t, "info"), "source")[1] = "s")
      /\ (\A x \in InBoth(t, "collections") : x[1] = "s") /\ (\A x \in InBoth(t, "similar") : x[1] = "b" /\ Len(x[3]) = 1 /\ x[4] = 0)
      /\ (Has(t, "nodes") => At(t, "nodes")[1] = "l" /\ \A x \in Items(At(t, "nodes")) : x[2][1][1] = "s"))
    \/ OddTrackers(t)
MetaOf(t) ==
    LET i == At(t, "info")
        hy == Hybrid(i)
        ds == IF ~V2(i) \/ hy THEN DictsV1(i) ELSE << >>
        ls == IF V2(i) THEN Leaves(At(i, "file tree"), << >>) ELSE {}
        ps == At(i, "piece length")[2]
        layer(f) == IF f.root # 0 /\ f.size > ps THEN [f EXCEPT !.layer = At(At(t, "piece layers"), Sym("@r", f.root))[3]] ELSE f
        leaf(d) == CHOOSE e \in ls : e[1] = PathKeys(At(d, "path"))
        f1(d) == LET f == FileOf(d, PathNos(PathKeys(At(d, "path"))), "v1") IN
                 IF hy /\ ~PadD(d) THEN layer([f EXCEPT !.root = FileOf(leaf(d)[2], f.path, "v2").root]) ELSE [f EXCEPT !.root = 0]
        f2s == {layer(FileOf(e[2], PathNos(e[1]), "v2")) : e \in ls}
    IN [tiers |-> TiersOf(t), comment |-> Text(t, "comment"), creator |-> Text(t, "created by"), date |-> IF Has(t, "creation date") THEN At(t, "creation date") ELSE I(0),
        coll |-> {x[2] : x \in InBoth(t, "collections")}, http |-> Texts(t, "httpseeds"), web |-> Texts(t, "url-list"),
        similar |-> {<<IF x[2] = 20 THEN "v1" ELSE "v2", x[3][1]>> : x \in InBoth(t, "similar")},
        nodes |-> IF Has(t, "nodes") THEN Once([j \in DOMAIN At(t, "nodes")[2] |-> <<At(t, "nodes")[2][j][2][1][2], At(t, "nodes")[2][j][2][2][2]>>]) ELSE << >>,
        name |-> At(i, "name")[2], dir |-> "", priv |-> IF Has(i, "private") THEN At(i, "private")[2] ELSE 0, source |-> Text(i, "source"),
        other |-> [k \in DOMAIN i[2] \ KnownInfo(i) |-> At(i, k)], cross |-> 0,
        mode |-> IF V2(i) /\ ~hy THEN "any" ELSE IF Has(i, "files") THEN "multi" ELSE "single",
        psize |-> ps, pieces |-> IF (~V2(i) \/ hy) /\ At(i, "pieces")[1] = "b" THEN At(i, "pieces")[3] ELSE << >>,
        files |-> IF ~V2(i) \/ hy THEN [j \in DOMAIN ds |-> f1(ds[j])] ELSE SetToSortSeq(f2s, LAMBDA a, b : Before(a.path, b.path))]
Verdict(t) == IF ~Good(t) THEN "refused" ELSE IF Open(t) \/ Odd(t) THEN "open" ELSE "read"
===============================================================================
