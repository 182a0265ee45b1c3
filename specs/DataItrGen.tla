----------------------------- MODULE DataItrGen -----------------------------
EXTENDS DataItr, TLC, Json
CONSTANTS N, NX, MaxData
VARIABLES st, op
vars == <<st, op>>
Op(n, i, j, v) == [op |-> n, i |-> i, j |-> j, v |-> v]
Name(x) == <<[i \in 1..N |-> x.el[i]], [i \in 1..NX |-> <<x.x[i].p, x.x[i].d>>]>>
View == Name(st)
Ops == {Op(n, i, j, 0) : n \in {"pre", "post", "copy"}, i \in 1..NX, j \in 1..NX}
       \cup {Op("make", i, d, v) : i \in 1..NX, d \in 0..MaxData, v \in 1..(N + 1)}
       \cup {Op("data", i, 0, v) : i \in 1..NX, v \in 0..MaxData}
       \cup {Op("itr", i, 0, v) : i \in 1..NX, v \in 1..(N + 1)}
       \cup {Op("put", i, 0, v) : i \in 1..NX, v \in 0..1}
Init == st = Start([i \in 1..N |-> 0], NX) /\ op = <<>>
Next == \E o \in Ops : Legal(o, st) /\ st' = Apply(o, st) /\ op' = o
Spec == Init /\ [][Next]_vars
EmitEdge == PrintT(ToJson([s |-> ToString(Name(st)), o |-> op', t |-> ToString(Name(st'))]))
InRange == \A i \in 1..NX : st.x[i].p \in 1..(N + 1)
(* Data is attached: it follows its iterator and is changed only explicitly.   *)
Attached == [][op'.op \in {"pre", "post", "itr", "put"} => st'.x[op'.i].d = st.x[op'.i].d]_vars
(* Equal iterators walk nothing; a walk is as long as the distance.            *)
Walks == \A i, j \in 1..NX : Same(st, i, j) => Walk(st, i, j) = <<>>
=============================================================================
