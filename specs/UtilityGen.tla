----------------------------- MODULE UtilityGen -----------------------------
(* All small calls, and laws of the definitions.                               *)
EXTENDS Utility, TLC, Json
CONSTANTS MaxText, MaxDigits, MaxBits
VARIABLE e
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Numbers(b) == {d \in Seqs(0..(b - 1), 1, MaxDigits) : d[1] # 0 \/ d = <<0>>}
Bytes == {0, 1, 128, 255}
Calls ==
  {[f |-> "quote", a |-> s] : s \in Seqs({34, 97, 92}, 0, MaxText)}
  \cup UNION {{[f |-> "digits", base |-> b, neg |-> n, a |-> d] : d \in Numbers(b), n \in BOOLEAN} : b \in {2, 3, 10}}
  \cup {[f |-> "literal", a |-> d] : d \in Seqs({0, 1}, 1, MaxBits)}
  \cup {[f |-> "shrink", t |-> t, a |-> a, b |-> b] : t \in {1, 2, 3, 4, 5}, a \in Seqs(Bytes, 1, 2), b \in Seqs(Bytes, 1, 2)}
  \cup {[f |-> "restore", a |-> a, nf |-> nf, ns |-> ns] : a \in Seqs(Bytes, 1, 3), nf \in {1, 2, 3, 4}, ns \in {1, 2, 3, 8}}
  \cup {[f |-> "insert", a |-> s] : s \in Seqs(1..3, 0, 3)}
  \cup {[f |-> "each", a |-> s] : s \in Seqs(1..3, 0, 3)}
Init == e \in Calls
Next == UNCHANGED e
Spec == Init /\ [][Next]_e
Emit == PrintT(ToJson(e))
Laws ==
  CASE e.f = "quote" -> Quote(Quote(e.a)) = Quote(e.a) /\ Quoted(Quote(e.a))
    [] e.f = "shrink" -> LET h == e.t \div 2 IN CanShrink(e.a, e.b, h) =>
         /\ Len(Shrink(e.a, e.b, e.t)) = e.t
         /\ Restore(Shrink(e.a, e.b, e.t), h, Len(e.a), Len(e.b)) = <<e.a, e.b>>
    [] e.f = "literal" -> Len(Literal(e.a)) = 64
    [] OTHER -> TRUE
=============================================================================
