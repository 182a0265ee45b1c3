------------------------------ MODULE LegacyGen ------------------------------
(* All applications with few errors: each is printed, and the numbering of errors *)
(* is checked to be what its users rely on.                                        *)
EXTENDS Legacy, Json
CONSTANTS N, Kinds
VARIABLE A
RECURSIVE Forests(_)
(* All forests of n errors; the type of an error is chosen from 0..Kinds.           *)
Forests(n) == IF n = 0 THEN {<<>>}
  ELSE UNION {{<<[type |-> t, subs |-> f]>> \o g : t \in 0..Kinds, f \in Forests(k - 1), g \in Forests(n - k)} : k \in 1..n}
F == UNION {Forests(n) : n \in 0..N}
Uses3 == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
G == UNION {Forests(n) : n \in 0..(N - 1)}
One == <<[type |-> 0, subs |-> <<>>]>>
(* All sequences of different numbers up to n.                                      *)
Orders(n) == {s \in UNION {[1..k -> 1..n] : k \in 0..n} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
(* Three applications: the second may use the first, the third both.                *)
Init == \/ \E f \in F : A = <<[errors |-> f, uses |-> <<>>]>>
        \/ \E f, g \in G, u \in {<<>>, <<1>>}, v \in Uses3 :
             A = <<[errors |-> f, uses |-> <<>>], [errors |-> g, uses |-> u], [errors |-> f, uses |-> v]>>
        (* All ways of four applications to use those before them.                  *)
        \/ \E u \in Orders(1), v \in Orders(2), w \in Orders(3) :
             A = <<[errors |-> One, uses |-> <<>>], [errors |-> One \o One, uses |-> u],
                   [errors |-> One, uses |-> v], [errors |-> One, uses |-> w]>>
Next == UNCHANGED A
Spec == Init /\ [][Next]_A
Emit == PrintT(ToJson([a |-> A]))
Ids(a) == UNION {{<<b, p>> : p \in Paths(A[b].errors)} : b \in {b \in DOMAIN A : Uses(A, a, b)}}
(* Codes of an application are 1, 2, ... Count. Seen from an application, different *)
(* errors have different codes.                                                     *)
Laws == \A a \in DOMAIN A :
  /\ {Code(A[a].errors, p) : p \in Paths(A[a].errors)} = 1..Count(A[a].errors)
  /\ \A x, y \in Ids(a) : x # y => Absolute(A, a, x[1], x[2]) # Absolute(A, a, y[1], y[2])
  /\ \A p \in Paths(A[a].errors) : Len(p) > 1 => Code(A[a].errors, p) > Code(A[a].errors, SubSeq(p, 1, Len(p) - 1))
=============================================================================
