-------------------------------- MODULE Hex ---------------------------------
(* Hexadecimal coding. Texts and data are sequences of byte values 0..255.     *)
EXTENDS Integers, Sequences
Byte == 0..255
Digit(c)  == (c \in 48..57) \/ (c \in 97..102) \/ (c \in 65..70)
Value(c)  == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
Lower(v)  == IF v < 10 THEN 48 + v ELSE 87 + v
Upper(v)  == IF v < 10 THEN 48 + v ELSE 55 + v
Pair(b)   == <<Lower(b \div 16), Lower(b % 16)>>
PairUp(b) == <<Upper(b \div 16), Upper(b % 16)>>
ToHex(d)  == [i \in 1..2 * Len(d) |-> Pair(d[(i + 1) \div 2])[IF i % 2 = 1 THEN 1 ELSE 2]]
\* a text is accepted as a whole or not at all
Valid(t)  == Len(t) % 2 = 0 /\ \A i \in DOMAIN t : Digit(t[i])
FromHex(t) == [i \in 1..Len(t) \div 2 |-> 16 * Value(t[2 * i - 1]) + Value(t[2 * i])]
LowerCase(t) == [i \in DOMAIN t |-> Lower(Value(t[i]))]
UpperCase(t) == [i \in DOMAIN t |-> Upper(Value(t[i]))]
=============================================================================
