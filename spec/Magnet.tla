-------------------------------- MODULE Magnet --------------------------------
(* Magnet links. All texts are sequences of bytes; the size is its sequence of  *)
(* decimal digits (64-bit numbers do not fit TLC's integers).                   *)
EXTENDS Percent, FiniteSets
AMP == 38  EQ == 61  PLUS == 43  COLON == 58
Prefix == <<109, 97, 103, 110, 101, 116, 58, 63>>                    \* magnet:?
K == [xt |-> <<120, 116>>, dn |-> <<100, 110>>, xl |-> <<120, 108>>, tr |-> <<116, 114>>, ws |-> <<119, 115>>,
      as |-> <<97, 115>>, xs |-> <<120, 115>>, kt |-> <<107, 116>>, mt |-> <<109, 116>>, pe |-> <<120, 46, 112, 101>>]
None == [xt |-> << >>, dn |-> << >>, xl |-> << >>, tr |-> << >>, ws |-> << >>, as |-> << >>, xs |-> << >>, kt |-> {}, mt |-> << >>, pe |-> << >>]
ListKeys == {"xt", "tr", "ws", "as", "pe"}
TextKeys == {"dn", "xs", "mt"}                                        \* empty: not there

\* largest 64-bit number, 18446744073709551615
MaxSize == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
RECURSIVE Less(_, _)
Less(a, b) == IF a = << >> THEN FALSE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
RECURSIVE Strip(_)
Strip(d) == IF d # << >> /\ Head(d) = 48 THEN Strip(Tail(d)) ELSE d   \* no leading zeroes; zero is the empty sequence
Number(d) == d # << >> /\ \A i \in DOMAIN d : Numeric(d[i])
Fits(d) == Len(d) < Len(MaxSize) \/ (Len(d) = Len(MaxSize) /\ ~Less(MaxSize, d))

RECURSIVE Split(_, _)
Split(t, c) == LET i == SelectInSeq(t, LAMBDA x : x = c) IN
    IF i = 0 THEN <<t>> ELSE <<SubSeq(t, 1, i - 1)>> \o Split(SubSeq(t, i + 1, Len(t)), c)
\* a trailing separator starts nothing
Parts(t, c) == LET s == Split(t, c) IN IF Last(s) = << >> THEN SubSeq(s, 1, Len(s) - 1) ELSE s

\* reading: <<refused, link>>
Refused == <<TRUE, None>>
Val(v, f(_)) == LET d == Decode(v) IN IF d.mode = "plain" THEN <<FALSE, f(d.out)>> ELSE Refused
RECURSIVE Words(_, _)
Words(ws, acc) == IF ws = << >> THEN <<FALSE, acc>>
    ELSE LET d == Decode(Head(ws)) IN IF d.mode # "plain" THEN <<TRUE, {}>> ELSE Words(Tail(ws), acc \cup {d.out})
ReadPart(l, p) ==
    LET i == SelectInSeq(p, LAMBDA x : x = EQ) IN
    IF i = 0 THEN Refused
    ELSE LET key == SubSeq(p, 1, i - 1)
             v == SubSeq(p, i + 1, Len(p))
         IN IF \A k \in DOMAIN K : K[k] # key THEN <<FALSE, l>>
            ELSE LET k == CHOOSE x \in DOMAIN K : K[x] = key IN
            CASE k \in ListKeys -> Val(v, LAMBDA x : [l EXCEPT ![k] = Append(@, x)])
              [] k \in TextKeys -> Val(v, LAMBDA x : [l EXCEPT ![k] = x])
              [] k = "xl" -> IF Number(v) /\ Fits(Strip(v)) THEN <<FALSE, [l EXCEPT !.xl = Strip(v)]>> ELSE Refused
              [] k = "kt" -> LET w == Words(Parts(v, PLUS), {}) IN IF w[1] THEN Refused ELSE <<FALSE, [l EXCEPT !.kt = @ \cup w[2]]>>
Read(t) ==
    IF ~IsPrefix(Prefix, t) THEN Refused
    ELSE LET q == SubSeq(t, Len(Prefix) + 1, Len(t))
         IN IF q = << >> THEN <<FALSE, None>>
            ELSE FoldLeft(LAMBDA a, p : IF a[1] THEN a ELSE ReadPart(a[2], p), <<FALSE, None>>, Parts(q, AMP))

\* one way of writing a link: the parameters in this order
Param(k, v) == K[k] \o <<EQ>> \o v
EachOf(l, k) == [i \in DOMAIN l[k] |-> Param(k, Encode(l[k][i]))]
OneOf(l, k) == IF l[k] = << >> THEN << >> ELSE <<Param(k, IF k = "xl" THEN l.xl ELSE Encode(l[k]))>>
Join(ps, c) == IF ps = << >> THEN << >> ELSE FoldLeft(LAMBDA a, p : a \o <<c>> \o p, Head(ps), Tail(ps))
Keywords(l) == IF l.kt = {} THEN << >> ELSE <<Param("kt", Join([i \in 1..Cardinality(l.kt) |-> Encode(SetToSeq(l.kt)[i])], PLUS))>>
Params(l) == EachOf(l, "xt") \o OneOf(l, "dn") \o OneOf(l, "xl") \o EachOf(l, "tr") \o EachOf(l, "ws") \o EachOf(l, "as")
             \o OneOf(l, "xs") \o Keywords(l) \o OneOf(l, "mt") \o EachOf(l, "pe")
Write(l) == Prefix \o Join(Params(l), AMP)

\* what may be written for a link: a text of plain characters that says what the link says
Plain(t) == \A i \in DOMAIN t : Unreserved(t[i]) \/ t[i] \in {PC, AMP, EQ, PLUS, COLON, 63}
Says(t, l) == Plain(t) /\ Read(t) = <<FALSE, l>>
\* topics are URNs: readers compare the written text, so "urn:btih:" stays readable
UrnReadable(t, l) == l.xt = << >> \/ \E i \in 1..Len(t) : IsPrefix(<<120, 116, 61, 117, 114, 110, 58>>, SubSeq(t, i, Len(t)))
===============================================================================
