------------------------------ MODULE ObjectGen -----------------------------
EXTENDS Object, TLC, Json
CONSTANTS Kind, NW, NS, MaxObj
VARIABLES st, op
vars == <<st, op>>
Op(n, k, v) == [op |-> n, k |-> k, v |-> v]
All == 1..(NW + NS)
Ops == {Op(n, k, 0) : n \in {"none", "new", "delete", "reset"}, k \in All}
       \cup {Op(n, k, v) : n \in {"make", "set"}, k \in All, v \in All}
       \cup {Op("put", k, v) : k \in All, v \in 0..1}
Name(x) == <<x.h, x.w, x.x>>
View == Name(st)
Init == st = Start(Kind, NW, NS) /\ op = Op("", 1, 0)
Next == \E o \in Ops : Legal(o, st) /\ st' = Apply(o, st) /\ op' = o /\ Len(st'.h) <= MaxObj
Spec == Init /\ [][Next]_vars
EmitEdge == PrintT(ToJson([s |-> ToString(Name(st)), o |-> op', t |-> ToString(Name(st'))]))
(* No wrapper refers to a destroyed object; strong ones always refer to one.   *)
Refer == /\ \A k \in All : Slot(st, k) \in Live(st) \cup {0}
         /\ \A j \in DOMAIN st.x : st.x[j] # 0
(* Static wrappers are independent: an operation changes its own wrapper only. *)
Independent == [][Kind = "static" => \A k \in All \ {op'.k} : Seen(st', k) = Seen(st, k)]_vars
(* Dynamic objects are destroyed only on demand.                               *)
OnDemand == [][op'.op # "delete" => \A o \in Live(st) : o \in Live(st')]_vars
(* A copy shows what it was made from.                                         *)
Alike == [][op'.op \in {"make", "set"} => Seen(st', op'.k) = Seen(st, op'.v)]_vars
=============================================================================
