----------------------------- MODULE TaggedGen ------------------------------
EXTENDS Tagged, TLC, Json, IOUtils
World == ndJsonDeserialize(IOEnv.WORLD_FILE)[1]
E == World.E
VARIABLES st, op
vars == <<st, op>>
View == st
Vals == 0..World.top
Op(n, i, j, k, v, vs) == [op |-> n, i |-> i, j |-> j, k |-> k, v |-> v, vs |-> vs]
Obj == 1..2
Ops == {Op(n, i, 0, 0, 0, vs) : n \in {"make", "assign"}, i \in Obj, vs \in [DOMAIN E -> Vals]}
       \cup {Op("new", i, 0, 0, 0, <<>>) : i \in Obj}
       \cup {Op("set", i, 0, t, v, <<>>) : i \in Obj, t \in TagsOf(E), v \in Vals}
       \cup {Op("setpos", i, 0, p, v, <<>>) : i \in Obj, p \in DOMAIN E, v \in Vals}
       \cup {Op(n, i, j, 0, 0, <<>>) : n \in {"copy", "cctor", "move", "mctor", "swap"}, i \in Obj, j \in Obj}
       \cup {Op("add", i, 0, 0, 1, <<>>) : i \in Obj}
       \cup {Op("args", i, 0, 0, 0, <<>>) : i \in Obj}
ASSUME WellFormed(E)
Init == st = [i \in Obj |-> Zero(E)] /\ op = <<>>
Next == \E o \in Ops : Legal(E, o, st) /\ st' = Apply(E, o, st) /\ op' = o
Spec == Init /\ [][Next]_vars
Small == \A i \in Obj : \A p \in DOMAIN E : st[i][p] \in Vals
EmitEdge == PrintT(ToJson([s |-> ToString(st), o |-> op', t |-> ToString(st')]))
(* A tag reaches one element, whichever of the tags of that element it is.     *)
Framed == [][op'.op = "set" => \A i \in Obj, p \in DOMAIN E :
              st'[i][p] = IF i = op'.i /\ p = Pos(E, op'.k) THEN op'.v ELSE st[i][p]]_vars
NothingLost == [][op'.op = "swap" => {st'[1], st'[2]} = {st[1], st[2]}]_vars
=============================================================================
