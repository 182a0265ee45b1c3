----------------------------- MODULE TypeListGen ----------------------------
(* All pairs of short lists: each is printed, and the definitions of TypeList  *)
(* are checked against laws that they have to satisfy.                         *)
EXTENDS TypeList, TLC, Json
CONSTANTS N, MaxA, MaxB
VARIABLES a, b
vars == <<a, b>>
Lists(m) == UNION {[1..k -> 1..N] : k \in 0..m}
Init == a \in Lists(MaxA) /\ b \in Lists(MaxB)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([a |-> a, b |-> b]))
Minus(x, y) == LET K(t) == ~Contained(t, y) IN Filter(x, K)
Laws ==
  /\ Distinct(NoDuplicates(a)) /\ Range(NoDuplicates(a)) = Range(a)
  /\ NoDuplicates(NoDuplicates(a)) = NoDuplicates(a)
  /\ Range(Intersect(a, b)) = Range(a) \cap Range(b)
  /\ NoDuplicates(Merge(a, b)) = Merge(Minus(NoDuplicates(a), b), NoDuplicates(b))
  /\ \A t \in 1..N : /\ ~Contained(t, RemoveType(t, a))
                     /\ RemoveType(t, Merge(a, b)) = Merge(RemoveType(t, a), RemoveType(t, b))
                     /\ Contained(t, a) => a[IndexOf(t, a) + 1] = t
                     /\ Contained(t, a) => SubSeq(a, 1, IndexOf(t, a)) \o From(t, a) = a
  /\ Reverse(Reverse(a)) = a
=============================================================================
