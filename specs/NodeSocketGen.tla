--------------------------- MODULE NodeSocketGen ----------------------------
EXTENDS NodeSocket, TLC, Json
CONSTANTS NC, MaxL, Late
VARIABLES cs, op
vars == <<cs, op>>
View == cs
OpL(n, c, nr, nc, e, late) == [op |-> n, c |-> c, nr |-> nr, nc |-> nc, late |-> late, b |-> <<>>, err |-> e]
Op(n, c, nr, nc, e) == OpL(n, c, nr, nc, e, 0)
C == 1..NC
Ops == {Op(n, c, 0, 0, e) : n \in {"close"}, c \in C, e \in BOOLEAN}
       \cup {Op(n, c, 0, 0, FALSE) : n \in {"connect", "badconnect", "data", "baddata", "badclose", "gc"}, c \in C}
       \cup {OpL("start", c, nr, nc, FALSE, late) : c \in C, nr \in 0..MaxL, nc \in 0..MaxL, late \in Late}
Init == cs = [c \in C |-> New] /\ op = <<>>
Next == \E o \in Ops : Legal(o, cs) /\ cs' = Apply(o, cs).cs /\ op' = o
Spec == Init /\ [][Next]_vars
Name(x) == ToString([c \in C |-> <<x[c].s, x[c].nr, x[c].nc, x[c].late>>])
EmitEdge == PrintT(ToJson([s |-> Name(cs), o |-> op', t |-> Name(cs')]))
(* Calls concern the connection of the operation only.                         *)
Own == \A o \in Ops : Legal(o, cs) => \A k \in DOMAIN Apply(o, cs).exp : Apply(o, cs).exp[k].c = o.c
Others == [][\A c \in C : c # op'.c => cs'[c] = cs[c]]_vars
=============================================================================
