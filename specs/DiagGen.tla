------------------------------- MODULE DiagGen --------------------------------
(* Every transition of two containers with up to Max diagnostics.               *)
EXTENDS Diag, TLC, Json
CONSTANTS Max
VARIABLES st, op
View == st
K == <<<<101>>, <<119, 58>>>>
None == <<>>
Op(n, i, j, c, f, a, k) == [op |-> n, i |-> i, j |-> j, code |-> c, pos |-> <<48>>, fmt |-> f, args |-> a, kind |-> k, sig |-> IF a = None THEN "-" ELSE "s"]
Ops == {Op("new", i, 0, None, None, None, K[k]) : i \in 1..2, k \in 1..2}
       \cup {Op("insert", i, 0, <<49>>, <<97>>, None, None) : i \in 1..2}
       \cup {Op("insert", i, 0, <<50>>, <<37, 115>>, <<<<37, 34>>>>, None) : i \in 1..2}
       \cup {Op(n, i, 0, None, None, None, None) : n \in {"fail", "clear"}, i \in 1..2}
       \cup {Op(n, i, j, None, None, None, None) : n \in {"swap", "json"}, i \in 1..2, j \in 1..2}
Init == st = [i \in 1..2 |-> New(K[1])] /\ op = <<>>
Next == \E o \in Ops : (o.op = "json" => o.i # o.j) /\ st' = Apply(o, st) /\ op' = o
Spec == Init /\ [][Next]_<<st, op>>
Small == \A i \in 1..2 : Len(st[i].items) <= Max /\ st[i].bad <= 1
Key(x) == ToString(<<x[1].kind, x[1].items, x[1].bad, x[2].kind, x[2].items, x[2].bad>>)
EmitEdge == Small' => PrintT(ToJson([s |-> Key(st), o |-> op', t |-> Key(st')]))
(* Diagnostics begin with the kind of their container.                          *)
Prefixed == \A i \in 1..2 : \A n \in 1..Len(st[i].items) :
  SubSeq(st[i].items[n], 1, Len(st[i].kind) + 2) = st[i].kind \o <<32, 67>>
=============================================================================
