---------------------------- MODULE PercentModel ----------------------------
EXTENDS Percent, TLC, Json, IOUtils
CONSTANTS AlphabetIn, MaxLen
VARIABLES t, s
Extra == JsonDeserialize(IOEnv.INPUTS)
Init == /\ \/ t = << >>
           \/ \E a, b \in Byte : t = <<PC, a, b>>
           \/ \E b \in Byte : t = <<b>>
           \/ \E b \in Byte : t = <<PC, b>>
           \/ \E k \in DOMAIN Extra : t = Extra[k]
        /\ s = Decode(t)
Next == /\ Len(t) < MaxLen /\ \A i \in DOMAIN t : t[i] \in AlphabetIn
        /\ \E c \in AlphabetIn : t' = Append(t, c) /\ s' = Feed(s, c)
Spec == Init /\ [][Next]_<<t, s>>
\* the text read as data: coding it is lossless and uses only unreserved characters and upper-case escapes
Lossless == LET e == Encode(t) IN
    /\ Decode(e).mode = "plain" /\ Decode(e).out = t
    /\ \A i \in DOMAIN e : e[i] = PC \/ Unreserved(e[i])
    /\ \A i \in DOMAIN e : e[i] = PC => /\ i + 2 <= Len(e)
                                        /\ e[i+1] \notin 97..102 /\ e[i+2] \notin 97..102
\* output only ever grows, and nothing is produced for an escape that is not complete
Strict == /\ s = Decode(t)
          /\ (s.mode = "plain" /\ \A i \in DOMAIN t : t[i] # PC) => s.out = t
          /\ Len(s.out) <= Len(t)
\* a text of whole escapes may be followed by any other, and what was read stays: the cases also decide any number of repetitions
Parts == /\ Encode(t \o t) = Encode(t) \o Encode(t)
         /\ s.mode = "plain" => LET d == Decode(t \o t) IN d.mode = "plain" /\ d.out = s.out \o s.out
OnceBad == [][s.mode = "bad" => s' .mode = "bad" /\ s'.out = s.out]_<<t, s>>
Emit == PrintT("CASE " \o ToJson(<<t, SetToSortSeq(Status(t), <), s.out, Encode(t)>>))
ASSUME \A c \in Byte : ~(Reserved(c) /\ Unreserved(c))
ASSUME \A c \in Byte : PrintT("CLASS " \o ToJson(<<c, Numeric(c), Alpha(c), Alpha(c) \/ Numeric(c), Unreserved(c), Reserved(c)>>))
=============================================================================
