------------------------------ MODULE HexModel ------------------------------
(* Enumerates texts (read as hexadecimal text and, where they are not, as data *)
(* to be converted) and checks that the coding is lossless and strict.         *)
EXTENDS Hex, TLC, Json, IOUtils
CONSTANTS Alphabet, MaxLen
VARIABLE t
Extra == JsonDeserialize(IOEnv.INPUTS)
AllBytes == Byte
Init == \/ t = << >>
        \/ \E a, b \in Byte : t = <<a, b>>
        \/ \E b \in Byte : t = <<b>>
        \/ \E k \in DOMAIN Extra : t = Extra[k]
Next == /\ Len(t) < MaxLen /\ \A i \in DOMAIN t : t[i] \in Alphabet
        /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t
Lossless == /\ Valid(ToHex(t)) /\ FromHex(ToHex(t)) = t
            /\ Valid(t) => ToHex(FromHex(t)) = LowerCase(t)
            /\ Len(ToHex(t)) = 2 * Len(t)
            /\ Valid(t) => Valid(UpperCase(t)) /\ FromHex(UpperCase(t)) = FromHex(t)
\* texts and data put together are converted part by part, so the cases also decide any number of repetitions
Parts == /\ ToHex(t \o t) = ToHex(t) \o ToHex(t)
         /\ Valid(t) => Valid(t \o t) /\ FromHex(t \o t) = FromHex(t) \o FromHex(t)
         /\ (~Valid(t) /\ Len(t) % 2 = 0) => ~Valid(t \o t)
Emit == PrintT("CASE " \o ToJson(<<t, Valid(t), IF Valid(t) THEN FromHex(t) ELSE << >>, ToHex(t)>>))
=============================================================================
