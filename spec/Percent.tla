------------------------------ MODULE Percent -------------------------------
(* Percent coding as a machine fed one character at a time.                    *)
EXTENDS Hex, SequencesExt
PC == 37   \* '%'
Alpha(c) == (c \in 65..90) \/ (c \in 97..122)
Numeric(c) == c \in 48..57
Unreserved(c) == Alpha(c) \/ Numeric(c) \/ c \in {45, 46, 95, 126}      \* - . _ ~
Reserved(c) == c \in {33, 35, 36, 38, 39, 40, 41, 42, 43, 44, 47, 58, 59, 61, 63, 64, 91, 93}

EncodeChar(c) == IF Unreserved(c) THEN <<c>> ELSE <<PC>> \o PairUp(c)
Encode(d) == FoldLeft(LAMBDA acc, c : acc \o EncodeChar(c), << >>, d)

\* decoder: mode \in plain | first | second | bad ; hi: first digit of the escape
Start == [mode |-> "plain", hi |-> 0, out |-> << >>]
Feed(s, c) ==
    CASE s.mode = "bad" -> s
      [] s.mode = "plain" /\ c = PC -> [s EXCEPT !.mode = "first"]
      [] s.mode = "plain" /\ c # PC -> [s EXCEPT !.out = Append(@, c)]
      [] s.mode = "first" /\ Digit(c) -> [s EXCEPT !.mode = "second", !.hi = Value(c)]
      [] s.mode = "second" /\ Digit(c) -> [s EXCEPT !.mode = "plain", !.out = Append(@, 16 * s.hi + Value(c))]
      \* a character that is no digit
      [] OTHER -> [s EXCEPT !.mode = "bad"]
Decode(t) == FoldLeft(Feed, Start, t)
\* admissible statuses of the text read so far: 0 success, 1 not hexadecimal, 2 cut short
\* (an escape that is both cut short and not hexadecimal may be reported either way)
Status(t) == LET s == Decode(t) IN
    CASE s.mode = "plain" -> {0}
      [] s.mode \in {"first", "second"} -> {2}
      [] OTHER -> IF Decode(SubSeq(t, 1, Len(t) - 1)).mode = "first" THEN {1, 2} ELSE {1}
=============================================================================
