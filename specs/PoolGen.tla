------------------------------- MODULE PoolGen ------------------------------
EXTENDS Pool, TLC, Json
CONSTANTS MaxLen, MaxVal
VARIABLES st, op
vars == <<st, op>>
Values(s) == [k \in DOMAIN s |-> s[k][2]]
Name(x) == <<Values(x.a), Values(x.b)>>
View == Name(st)
Op(n, i, j, v) == [op |-> n, i |-> i, j |-> j, v |-> v]
Ops == LET I == 1..MaxLen IN
       {Op("emplace", i, 0, v) : i \in I, v \in 0..MaxVal}
       \cup {Op(n, i, j, 0) : n \in {"swap", "over", "erase"}, i \in I, j \in 0..MaxLen}
       \cup {Op(n, i, 0, 0) : n \in {"rotate", "carry"}, i \in I}
       \cup {Op(n, i, 0, v) : n \in {"set", "setp"}, i \in I, v \in 0..MaxVal}
       \cup {Op(n, 0, 0, 0) : n \in {"reverse", "sort", "room", "trade"}}
Init == st = Empty /\ op = <<>>
Next == \E o \in Ops : /\ Legal(o, st) /\ st' = Apply(o, st) /\ op' = o
                       /\ Len(st'.a) + Len(st'.b) <= MaxLen
Spec == Init /\ [][Next]_vars
EmitEdge == PrintT(ToJson([s |-> ToString(Name(st)), o |-> op', t |-> ToString(Name(st'))]))
One == Single(st)
(* A pointer that is known after a step was known before it or is new, and     *)
(* only a write through it changes its value.                                  *)
Held(x, p) == IF \E i \in DOMAIN x.a : x.a[i][1] = p THEN x.a[CHOOSE i \in DOMAIN x.a : x.a[i][1] = p][2]
              ELSE x.b[CHOOSE i \in DOMAIN x.b : x.b[i][1] = p][2]
Kept == [][ \A p \in Pointers(st') : \/ p = st'.n /\ st'.n # st.n
                                     \/ p \in Pointers(st) /\ (op'.op \in {"set", "setp"} \/ Held(st', p) = Held(st, p)) ]_vars
=============================================================================
