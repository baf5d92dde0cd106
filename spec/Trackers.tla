------------------------------- MODULE Trackers -------------------------------
(* A tracker list: a sequence of non-empty tiers, each a set of URLs shown in   *)
(* order (URLs are numbers here; larger numbers sort later).                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt
Tidy(ts) == SelectSeq(ts, LAMBDA t : t # {})
HasIn(ts, u, t) == t + 1 \in DOMAIN ts /\ u \in ts[t + 1]
Has(ts, u) == \E t \in DOMAIN ts : u \in ts[t]
FirstTier(ts, u) == Min({t \in DOMAIN ts : u \in ts[t]}) - 1
Ins(ts, u, t) == IF t = Len(ts) THEN Append(ts, {u}) ELSE [ts EXCEPT ![t + 1] = @ \cup {u}]
Del(ts, u, t) == IF HasIn(ts, u, t) THEN Tidy([ts EXCEPT ![t + 1] = @ \ {u}]) ELSE ts
\* a metafile keeps each URL in one tier: adding it again moves it
AddAt(ts, u, t) == IF ~Has(ts, u) THEN Ins(ts, u, t)
                   ELSE LET o == FirstTier(ts, u) IN IF o = t THEN ts ELSE Del(Ins(ts, u, t), u, o)
Step(ts, op) ==
   CASE op[1] \in {"insert", "move", "emplace"} -> Ins(ts, op[2], op[3])
     [] op[1] \in {"erase", "eraseit"} -> Del(ts, op[2], op[3])
     [] op[1] = "add" -> AddAt(ts, op[2], op[3])
     [] op[1] = "addend" -> AddAt(ts, op[2], Len(ts))
     [] op[1] = "rm" -> IF Has(ts, op[2]) THEN Del(ts, op[2], FirstTier(ts, op[2])) ELSE ts
     [] op[1] = "rmat" -> Del(ts, op[2], op[3])
     [] op[1] = "clear" -> << >>
     [] op[1] = "make" -> Tidy([i \in DOMAIN op[2] |-> {op[2][i][j] : j \in DOMAIN op[2][i]}])
     [] OTHER -> ts
\* calls the list accepts: no tier beyond the next new one, no second copy of a URL in its tier
Allowed(ts, op) ==
   CASE op[1] \in {"insert", "move", "emplace"} -> op[3] <= Len(ts) /\ ~HasIn(ts, op[2], op[3])
     [] op[1] = "add" -> op[3] <= Len(ts)
     [] op[1] = "eraseit" -> HasIn(ts, op[2], op[3])
     [] OTHER -> TRUE
Show(ts) == [i \in DOMAIN ts |-> SetToSortSeq(ts[i], LAMBDA a, b : a < b)]
=============================================================================
