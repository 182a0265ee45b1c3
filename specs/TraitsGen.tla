----------------------------- MODULE TraitsGen ------------------------------
(* All reachable states and transitions of a small universe of descriptors     *)
(* and sets; every transition is printed and executed on the real classes.     *)
EXTENDS Traits, TLC, Json, IOUtils
CONSTANTS ND, NS, Multi, Which
Lay == ndJsonDeserialize(IOEnv.LAYOUT_FILE)[1]
L == Lay.L
S == Lay.S
VARIABLES st, op
vars == <<st, op>>
View == st
T == AllTraits(L)
N == Cardinality(T)
Op(n, i, j, ts) == [op |-> n, i |-> i, j |-> j, ts |-> ts, v |-> 1]
Lists == {<<t>> : t \in T} \cup (IF Multi THEN Range(Lay.M) ELSE {})
DOps == {Op(n, i, 0, ts) : n \in {"dset", "dunset", "dunsetgrp"}, i \in 1..ND, ts \in Lists}
        \cup {Op("dunsetall", i, 0, <<>>) : i \in 1..ND}
        \cup {Op("dcopy", i, j, <<>>) : i \in 1..ND, j \in 1..ND}
        \cup {Op(n, i, 0, <<>>) : n \in {"dsete", "dunsete"}, i \in 1..ND}
EOps == {Op(n, 0, 0, <<t>>) : n \in {"eset", "eunset"}, t \in AllTraits(S)}
        \cup {Op(n, i, 0, <<>>) : n \in {"setde", "updde", "seted", "upded"}, i \in 1..ND}
SOps == {Op(n, i, 0, ts) : n \in {"sset", "sunset"}, i \in 1..NS, ts \in Lists}
        \cup {Op(n, i, 0, <<t>>) : n \in {"sdesc", "snull", "sself", "srelease"}, i \in 1..NS, t \in T}
        \cup {Op(n, i, 0, <<>>) : n \in {"sunsetall", "snew", "sunsete"}, i \in 1..NS}
        \cup {o \in {Op(n, i, j, <<>>) : n \in {"setss", "updss"}, i \in 1..NS, j \in 1..NS} : o.i # o.j}
        \cup {Op("smove", i, j, <<>>) : i \in 1..NS, j \in 1..NS}
        \cup {o \in {Op("smovector", i, j, <<>>) : i \in 1..NS, j \in 1..NS} : o.i # o.j}
DSOps == {Op(n, i, j, <<>>) : n \in {"setds", "updds", "upsd"}, i \in 1..ND, j \in 1..NS}
         \cup {Op("dget", i, j, <<>>) : i \in 1..ND, j \in 1..NS}
         \cup {Op(n, i, j, <<>>) : n \in {"sassign", "sctor"}, i \in 1..NS, j \in 1..ND}
Ops == CASE Which = "d" -> DOps
         [] Which = "de" -> DOps \cup EOps
         [] Which = "s" -> SOps
         [] Which = "ds" -> SOps \cup DSOps \cup {o \in DOps : Len(o.ts) = 1 /\ o.op # "dunsetgrp"}
Init == /\ st = [d |-> [i \in 1..ND |-> {}], e |-> {}, s |-> [i \in 1..NS |-> EmptySet(N)]]
        /\ op = <<>>
Next == \E o \in Ops : st' = Apply(L, S, o, st) /\ op' = o
Spec == Init /\ [][Next]_vars
EmitEdge == PrintT(ToJson([s |-> ToString(st), o |-> op', t |-> ToString(st')]))
NeverConflicting == /\ \A i \in 1..ND : Consistent(L, st.d[i])
                    /\ \A i \in 1..NS : Consistent(L, st.s[i].tr)
                    /\ Consistent(S, st.e)
DescribedAreSet == \A i \in 1..NS : \A t \in T : st.s[i].ds[t] # 0 => t \in st.s[i].tr
=============================================================================
