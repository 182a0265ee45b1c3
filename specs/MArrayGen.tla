----------------------------- MODULE MArrayGen ------------------------------
EXTENDS MArray, TLC, Json
CONSTANTS NS, Rank, MaxDim
VARIABLES st, op
vars == <<st, op>>
View == st
Dims == [1..Rank -> 1..MaxDim] \cup {[k \in 1..Rank |-> IF k = z THEN 0 ELSE MaxDim] : z \in 1..Rank}
Op(n, i, j, x) == [op |-> n, i |-> i, j |-> j, x |-> x, v |-> 1]
Ops == {Op(n, i, 0, d) : n \in {"new", "renew"}, i \in 1..NS, d \in Dims}
       \cup {Op("set", i, 0, x) : i \in 1..NS, x \in [1..Rank -> 0..(MaxDim - 1)]}
       \cup {Op("move", i, j, <<>>) : i \in 1..NS, j \in 1..NS}
       \cup {Op("ctor", i, j, <<>>) : i \in 1..NS, j \in 1..NS}
       \cup {Op("destroy", i, 0, <<>>) : i \in 1..NS}
Init == st = [i \in 1..NS |-> None] /\ op = <<>>
Next == \E o \in Ops : Legal(o, st) /\ st' = Apply(o, st) /\ op' = o
Spec == Init /\ [][Next]_vars
(* A name of a state that does not depend on how TLC represents functions.     *)
RECURSIVE IndexSeq(_)
Prefixed(i, s) == [k \in DOMAIN s |-> <<i>> \o s[k]]
RECURSIVE Rows(_, _, _)
Rows(i, n, s) == IF i = n THEN <<>> ELSE Prefixed(i, s) \o Rows(i + 1, n, s)
IndexSeq(dims) == IF dims = <<>> THEN <<<<>>>> ELSE Rows(0, Head(dims), IndexSeq(Tail(dims)))
Name(x) == [i \in 1..NS |-> IF x[i].own THEN <<x[i].dims, [k \in DOMAIN IndexSeq(x[i].dims) |-> x[i].el[IndexSeq(x[i].dims)[k]]]>> ELSE <<>>]
EmitEdge == PrintT(ToJson([s |-> ToString(Name(st)), o |-> op', t |-> ToString(Name(st'))]))
(* An assignment changes one element of one array.                             *)
Framed == [][op'.op = "set" => /\ \A i \in 1..NS : i # op'.i => st'[i] = st[i]
                               /\ \A x \in DOMAIN st[op'.i].el : x # op'.x => st'[op'.i].el[x] = st[op'.i].el[x]]_vars
(* Nothing but new arrays and destruction changes the number of elements,      *)
(* except an array that is replaced.                                           *)
Conserved == [][op'.op \in {"set", "ctor", "move"} => Elements(st') <= Elements(st)]_vars
=============================================================================
