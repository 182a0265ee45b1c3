----------------------------- MODULE StaticMapGen -----------------------------
(* Every transition of a few maps with small values.                             *)
EXTENDS StaticMap, TLC, Json, IOUtils
W == ndJsonDeserialize(IOEnv.WORLD_FILE)[1]
VARIABLES st, op
vars == <<st, op>>
View == st
M == DOMAIN W.maps
Op(n, i, j, k, v, vs) == [op |-> n, i |-> i, j |-> j, k |-> k, v |-> v, vs |-> vs]
Sets == {Op("set", i, 0, k, v, <<>>) : i \in M, k \in UNION {Keys(W, i) : i \in M}, v \in 1..W.top}
One(n) == {Op(n, i, 0, 0, 0, <<>>) : i \in M}
Two(n) == {Op(n, i, j, 0, 0, <<>>) : i \in M, j \in M}
Ctor == IF W.ordered \/ W.legacy THEN {Op("ctor", i, 0, 0, 0, [x \in DOMAIN W.maps[i] |-> x % (W.top + 1)]) : i \in {j \in M : W.maps[j] # <<>>}} ELSE {}
Counts == {Op("count", i, 0, 0, 0, <<k>>) : i \in M, k \in UNION {Keys(W, i) : i \in M}}
Ops == {o \in Sets : Legal(W, o, Start(W))} \cup One("new")
       \cup {o \in Two("copy") \cup (IF W.legacy /\ ~ W.ordered THEN {} ELSE Two("move")) : Legal(W, o, Start(W))}
       \cup (IF W.ordered THEN One("clear") \cup One("init") \cup Two("copyto") \cup Two("copyfrom") ELSE {})
       \cup (IF W.ordered /\ ~ W.legacy THEN Two("moveto") \cup Two("movefrom") ELSE {})
       \cup (IF W.ordered = W.legacy THEN {} ELSE Ctor)
       \cup {o \in Two("conv") : Legal(W, o, Start(W))}
       \cup (IF W.counts THEN {o \in Counts : o.vs[1] \in Keys(W, o.i)} ELSE {})
       \cup (IF W.json THEN {o \in Two("json") : W.maps[o.i] = W.maps[o.j]} ELSE {})
Init == st = Start(W) /\ op = <<>>
(* A new object has a number of its own.                                          *)
OneObject(o) == CASE o.op = "set" -> W.kind[o.k] = "ptr" => o.v \notin st.live
                  [] o.op = "ctor" -> Made(W, o.i, Apply(W, o, st).m[o.i]) \cap st.live = {}
                  [] OTHER -> TRUE
Next == \E o \in Ops : Legal(W, o, st) /\ OneObject(o) /\ st' = Apply(W, o, st) /\ op' = o
Small == \A i \in M : \A k \in Keys(W, i) : st.m[i][k] <= W.top
Spec == Init /\ [][Next]_vars
Key(x) == ToString(<<x.m, x.live>>)
EmitEdge == Small' => PrintT(ToJson([s |-> Key(st), o |-> op', t |-> Key(st')]))
(* What a step changes: the target, and the source of a move.                      *)
Framed == [][\A i \in M : st.m[i] # st'.m[i] => op'.i = i \/ (op'.j = i /\ op'.op \in {"move", "moveto", "movefrom"})]_vars
(* A copy leaves both maps equal where they share keys; other keys stay.           *)
CopyExact == [][op'.op \in {"copyto", "copyfrom", "copy"} =>
   \A k \in Keys(W, op'.i) : st'.m[op'.i][k] = IF k \in Keys(W, op'.j) THEN st.m[op'.j][k] ELSE st.m[op'.i][k]]_vars
=============================================================================
