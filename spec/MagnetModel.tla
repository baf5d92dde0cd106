----------------------------- MODULE MagnetModel -----------------------------
EXTENDS Magnet, TLC, Json, IOUtils
CONSTANTS MaxTok, Mode
In0 == JsonDeserialize(IOEnv.INPUTS)     \* [texts |-> .., toks |-> .., vals |-> .., all |-> ..]
VARIABLES kind, l, t, n

\* --- links: two parameters set in every way, or all of them
Vals == In0.vals
VSet == {Vals[i] : i \in DOMAIN Vals}
Opts(k) == CASE k \in ListKeys -> {<<a>> : a \in VSet} \cup {<<Vals[i], Vals[1 + (i % Len(Vals))]>> : i \in DOMAIN Vals} \cup {<<Vals[2], Vals[2]>>, <<Vals[3], Vals[2], Vals[4]>>}
                [] k \in TextKeys -> VSet \ {<< >>}
                [] k = "xl" -> {<<49>>, <<49, 48>>, MaxSize}
                [] k = "kt" -> {{a} : a \in VSet \ {<< >>}} \cup {{Vals[i], Vals[1 + (i % Len(Vals))]} \ {<< >>} : i \in DOMAIN Vals} \cup {{Vals[2], Vals[3], Vals[4]} \ {<< >>}}
Full == [k \in DOMAIN K |-> CHOOSE c \in Opts(k) : k \in ListKeys => Len(c) = 3]
\* every byte in every parameter
ByteIn(k, b) == CASE k \in ListKeys -> <<<<b>>, <<97, b>>>> [] k \in TextKeys -> <<b, 97>> [] k = "xl" -> <<49>> [] k = "kt" -> {<<b>>, <<97>>}

SomeOpt(k) == LET C == Opts(k) IN CHOOSE c \in C : TRUE
Init ==
    \/ /\ Mode = "links" /\ kind = "link" /\ t = << >> /\ n = 0
       /\ \/ l = None \/ l = Full
          \/ \E k \in DOMAIN K : \E c \in Opts(k) : l = [None EXCEPT ![k] = c]
          \/ \E k \in DOMAIN K : \E c \in Opts(k) : l = [Full EXCEPT ![k] = c]
          \/ \E k, j \in DOMAIN K : k # j /\ \E c \in Opts(k) : l = [None EXCEPT ![k] = c, ![j] = SomeOpt(j)]
          \/ \E k \in DOMAIN K, b \in Byte : l = [None EXCEPT ![k] = ByteIn(k, b)]
    \/ /\ Mode = "texts" /\ kind = "text" /\ l = None
       /\ \/ t = Prefix /\ n = 0
          \/ \E i \in DOMAIN In0.texts : t = In0.texts[i] /\ n = MaxTok
Next == /\ kind = "text" /\ n < MaxTok /\ n' = n + 1 /\ UNCHANGED <<kind, l>>
        /\ \E i \in DOMAIN In0.toks : t' = t \o In0.toks[i]
Spec == Init /\ [][Next]_<<kind, l, t, n>>

RoundTrip == kind = "link" => LET w == Write(l) IN Says(w, l)
\* the order of the parameters does not matter, only that of parameters of one kind
AnyOrder == kind = "link" => LET ps == Params(l) IN
    \A i \in 1..Len(ps) - 1 : SubSeq(ps[i], 1, 2) # SubSeq(ps[i + 1], 1, 2) =>
        Read(Prefix \o Join(SubSeq(ps, 1, i - 1) \o <<ps[i + 1], ps[i]>> \o SubSeq(ps, i + 2, Len(ps)), AMP)) = <<FALSE, l>>
\* parameters that are not known change nothing
Unknown == kind = "link" => \A k \in {<<122>>, <<>>, <<120, 116, 46, 49>>} : Read(Write(l) \o (IF l = None THEN << >> ELSE <<AMP>>) \o k \o <<EQ, 97>>) = <<FALSE, l>>
\* what can be read is what its own writing says
ReadBack == kind = "text" => LET r == Read(t) IN r[1] \/ << >> \in r[2].kt \/ Says(Write(r[2]), r[2])
Show(m) == [m EXCEPT !.kt = SetToSeq(@)]
Emit == IF kind = "link" THEN PrintT("LINK " \o ToJson(<<Show(l), Write(l)>>))
        ELSE PrintT("TEXT " \o ToJson(<<t, IF Read(t)[1] THEN "refused" ELSE Show(Read(t)[2])>>))
==============================================================================
