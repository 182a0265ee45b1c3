----------------------------- MODULE ChainGen -------------------------------
EXTENDS Chain, TLC, Json
CONSTANTS N, NT, Iter
VARIABLES st, op
Op(n, t, a, m) == [op |-> n, t |-> t, a |-> a, n |-> m]
Ops == {Op(n, t, a, m) : n \in {"splicenext", "spliceprev", "mergenext", "mergeprev"}, t \in 1..NT, a \in 1..N, m \in 0..N}
       \cup IF Iter THEN {Op("set", 1, 0, m) : m \in 0..N} \cup
                         {Op(n, t, 0, 0) : n \in {"preinc", "postinc", "predec", "postdec"}, t \in 1..NT}
            ELSE {}
View == st
Init == st = [c |-> [t \in 1..NT |-> Empty(N)], it |-> 0] /\ op = <<>>
Next == \E o \in Ops : Legal(o, st) /\ st' = Apply(o, st) /\ op' = o
Spec == Init /\ [][Next]_<<st, op>>
EmitEdge == PrintT(ToJson([s |-> ToString(st), o |-> op', t |-> ToString(st')]))
Links == \A t \in 1..NT : Symmetric(st.c[t]) /\ Loopless(st.c[t])
=============================================================================
