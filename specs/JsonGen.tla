------------------------------ MODULE JsonGen -------------------------------
(* All texts that are the beginning of a value of a type with one token appended *)
(* (so texts that are a value, too short, or wrong at their last token), and, for *)
(* Chars, all texts over an alphabet. Input file: the type and the alphabet.     *)
EXTENDS JsonText, TLC, Json, IOUtils
CONSTANTS MaxLen, Chars
In == JsonDeserialize(IOEnv.GEN_FILE)
VARIABLES text
vars == text
Ty == In.ty
Alpha == Range(In.alpha)
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN <<>> ELSE Head(s) \o sep \o Join(Tail(s), sep)
Flat(s) == Join(s, IF Chars THEN <<>> ELSE <<32>>)
Init == text = <<>>
Next == /\ Len(text) < MaxLen
        /\ Chars \/ Read(Ty, Tokens(Flat(text))).r = "more"
        /\ \E a \in Alpha : text' = Append(text, a)
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson(Flat(text')))
\* Reading is a function of the tokens: it does not depend on the space between them.
Spaced(s) == Read(Ty, Tokens(Join(s, <<10, 9>>)))
SpaceFree == Chars \/ Spaced(text) = Read(Ty, Tokens(Flat(text)))
=============================================================================
