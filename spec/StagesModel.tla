----------------------------- MODULE StagesModel -----------------------------
(* Every order of handing over the items of small layouts, before and after    *)
(* the start, and given orders of larger ones; prints what must come out.      *)
EXTENDS Stages, Json, IOUtils
CONSTANTS MaxItems, EarlyWaits
VARIABLES kind, l, ops, right, script
vars == <<life, kind, l, ops, right, script>>
Big == JsonDeserialize(IOEnv.INPUTS)
F(s) == [size |-> s, pad |-> 0, miss |-> 0]
M(s) == [size |-> s, pad |-> 0, miss |-> 1]
Z(s) == [size |-> s, pad |-> 1, miss |-> 0]
L(pr, p, c, fs) == [proto |-> pr, p |-> p, c |-> c, files |-> fs]
Small == [read |-> {L("v1", 1, 2, <<F(3), M(9), F(4)>>), L("v1", 2, 1, <<M(5), Z(3), F(6)>>), L("v1", 1, 1, <<M(4)>>), L("v1", 2, 3, <<F(1), M(2), M(30), F(1)>>), L("v2", 1, 1, <<F(3), F(0), M(9), F(4)>>),
                    L("hybrid", 2, 2, <<M(9), Z(3), F(16), F(0), F(1)>>)},
          hash |-> {L("v1", 1, 1, <<F(5)>>), L("v1", 1, 2, <<F(3), F(0), F(8)>>), L("v1", 2, 1, <<F(1), F(9)>>), L("v1", 2, 2, <<F(20)>>), L("v1", 1, 1, <<F(1)>>), L("v1", 4, 1, <<F(7), Z(1), F(9)>>),
                    L("v2", 1, 1, <<F(5)>>), L("v2", 2, 1, <<F(3), F(8)>>), L("v2", 1, 2, <<F(9), F(1)>>), L("v2", 2, 1, <<F(5), M(6)>>), L("v2", 4, 2, <<F(16), F(17)>>), L("v2", 1, 1, <<M(3), F(2), Z(2), F(1)>>),
                    L("hybrid", 1, 1, <<F(3), Z(1), F(2)>>), L("hybrid", 2, 1, <<F(3), Z(1), F(5), Z(3), F(1)>>), L("hybrid", 1, 2, <<F(8), F(5)>>), L("hybrid", 2, 2, <<F(4), F(9), Z(3), F(4)>>)},
          write |-> {L("v1", 1, 1, <<F(5)>>), L("v1", 2, 1, <<F(1), F(9)>>), L("v2", 1, 1, <<F(5)>>), L("v2", 1, 1, <<F(2), F(3)>>), L("v2", 2, 1, <<F(7)>>), L("v2", 2, 1, <<F(1), F(6)>>), L("v2", 4, 1, <<F(6)>>), L("v2", 1, 1, <<F(3), Z(1), F(2)>>),
                     L("hybrid", 1, 1, <<F(3)>>), L("hybrid", 2, 1, <<F(3), Z(1), F(2)>>)},
          verify |-> {L("v1", 1, 1, <<F(5)>>), L("v1", 2, 1, <<F(1), F(9)>>), L("v2", 1, 1, <<F(5)>>), L("v2", 1, 1, <<F(2), F(3)>>), L("v2", 2, 1, <<F(7)>>), L("v2", 2, 1, <<F(1), F(6)>>), L("v2", 4, 1, <<F(6)>>), L("v2", 1, 1, <<F(3), Z(1), F(2)>>)}]
Layouts(k) == CASE k = "read" -> Small.hash \union Small.read
                [] k = "sum" -> {x \in Small.hash : x.proto # "v1" \/ \A f \in DOMAIN x.files : x.files[f].miss = 0} \union {L("v1", 1, 1, <<F(0), F(3), F(0), F(0), Z(1), F(2), F(0)>>), L("v1", 2, 1, <<F(0), F(0), F(1), F(7)>>)}
                [] OTHER -> Small[k]
Its == Items(kind, l)
N == Len(Its)
Kinds == {"read", "hash", "sum", "write", "verify"}
Init == /\ LInit /\ ops = << >>
        /\ \/ script = << >> /\ kind \in Kinds /\ l \in Layouts(kind) /\ Len(Items(kind, l)) <= MaxItems
              /\ right \in IF kind = "verify" THEN SUBSET (1..Len(Items(kind, l))) ELSE {{}}
           \/ \E b \in ToSet(Big) : kind = b.kind /\ l = b.l /\ right = ToSet(b.right) /\ script = b.ops
Op(o) == ops' = Append(ops, [o |-> o[1], i |-> o[2], s |-> Says'])
Does(o) == /\ UNCHANGED <<kind, l, right>>
           /\ CASE o[1] = "start" -> Start [] o[1] = "give" -> Give(o[2]) /\ (kind = "sum" => o[2] = Cardinality(given) + 1) [] o[1] = "stop" -> Request("stop") [] o[1] = "cancel" -> IF kind = "read" /\ ph = "new" THEN CancelNew ELSE Request("cancel")
                [] o[1] = "badstart" -> BadStart [] o[1] = "badwait" -> BadWait [] o[1] = "again" -> Again
                [] o[1] = "early" -> WaitEarly [] o[1] = "wait" -> IF kind = "read" THEN WaitRead ELSE Wait
           /\ Op(o)
Free == script = << >> /\ UNCHANGED script
        /\ \/ \E i \in 1..N : Does(<<"give", i>>)
           \/ \E w \in {"start", "cancel", "wait"} \union (IF kind = "read" THEN {} ELSE {"stop"}) : Does(<<w, 0>>)
           \/ kind = "read" /\ Len(ops) < 4 /\ \E w \in {"badstart", "badwait", "again"} : Does(<<w, 0>>)
           \/ EarlyWaits /\ kind # "read" /\ Does(<<"early", 0>>)
Told == script # << >> /\ Len(ops) < Len(script) /\ Does(<<script[Len(ops) + 1][1], script[Len(ops) + 1][2]>>) /\ UNCHANGED script
Next == Free \/ Told
Spec == Init /\ [][Next]_vars
Over == ph \in {"over", "dead"}
\* the result does not depend on the order: it is a function of the set of what was given
Result == CASE kind = "read" -> [pieces |-> ReadOut(l), bytes |-> Total(l)]
            [] kind = "hash" -> [ranges |-> UNION {Ranges(l, Its[i]) : i \in given}, done |-> DoneBytes(l, Its, given), hashed |-> HashedBytes(UNION {Ranges(l, Its[i]) : i \in given})]
            [] kind = "sum" -> [files |-> Summed(l, Its, given), bytes |-> SummedBytes(l, Its, given), all |-> given = 1..N]
            [] kind = "write" -> [v1 |-> V1Came(Its, given), files |-> WholeFiles(l, Its, given)]
            [] kind = "verify" -> [bits |-> IF l.proto = "v1" THEN BitsV1(l, Its, given, right) ELSE BitsV2(l, Its, given, right)]
\* all given: every byte of the data is in exactly one leaf (v2) or piece (v1) and the places are all taken
Complete == kind = "hash" /\ given = 1..N /\ l.proto # "hybrid" /\ (\A f \in DOMAIN l.files : l.files[f].miss = 0) =>
              FoldSet(LAMBDA r, a : a + r.to - r.from, 0, Result.ranges) = (IF l.proto = "v1" THEN Total(l) ELSE FoldSet(LAMBDA f, a : a + l.files[f].size, 0, Data(l)))
OnePlace == kind = "hash" => \A r, q \in Result.ranges : (r.v = q.v /\ r.index = q.index /\ (r.v = 1 \/ r.file = q.file)) => r = q
\* reading: the pieces follow each other and cover everything that is there
Covers == kind = "read" => LET ps == ReadOut(l) IN
            IF l.proto = "v1" THEN /\ \A k \in DOMAIN ps : ps[k].from = (IF k = 1 THEN 0 ELSE ps[k - 1].to)
                                   /\ ps # << >> => ps[Len(ps)].to = Total(l)
            ELSE \A f \in Data(l) : LET q == SelectSeq(ps, LAMBDA x : x.file = f) IN
                    /\ q # << >> /\ q[1].from = 0 /\ q[Len(q)].to = l.files[f].size /\ \A k \in 2..Len(q) : q[k].from = q[k - 1].to
\* more input never takes a result away
Grows == [][kind = "hash" => Ranges(l, Its[1]) \subseteq UNION {Ranges(l, Its[i]) : i \in given' \union {1}}]_vars
Emit == Over => PrintT("CASE " \o ToJson([kind |-> kind, l |-> l, items |-> Its, right |-> right, ops |-> ops, cancel |-> req = "cancel", r |-> Result]))
=============================================================================
