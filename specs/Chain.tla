------------------------------- MODULE Chain --------------------------------
(* Chains of nodes (bcl/Chain.h). nx and pv give, for every tag, the next and   *)
(* the previous node of each node (0: none); it is an iterator (0: null).       *)
EXTENDS Integers, Sequences
(* Remove the links of n to its neighbours.                                     *)
Upd(f, x, y) == IF x = 0 THEN f ELSE [f EXCEPT ![x] = y]
Cut(c, n) == IF n = 0 THEN c ELSE
  [nx |-> Upd([c.nx EXCEPT ![n] = 0], c.pv[n], 0), pv |-> Upd([c.pv EXCEPT ![n] = 0], c.nx[n], 0)]
CutNext(c, n) == IF n = 0 THEN c ELSE [nx |-> [c.nx EXCEPT ![n] = 0], pv |-> Upd(c.pv, c.nx[n], 0)]
CutPrev(c, n) == IF n = 0 THEN c ELSE [nx |-> Upd(c.nx, c.pv[n], 0), pv |-> [c.pv EXCEPT ![n] = 0]]
Link(c, a, b) == IF a = 0 \/ b = 0 THEN c ELSE [nx |-> [c.nx EXCEPT ![a] = b], pv |-> [c.pv EXCEPT ![b] = a]]
(* n leaves its neighbours and stands between a and the node that followed a.   *)
SpliceNext(c, a, n) ==
  LET d == Cut(c, n) IN
  IF n = 0 THEN CutNext(c, a) ELSE Link(Link(CutNext(d, a), n, d.nx[a]), a, n)
SplicePrev(c, a, n) ==
  LET d == Cut(c, n) IN
  IF n = 0 THEN CutPrev(c, a) ELSE Link(Link(CutPrev(d, a), d.pv[a], n), n, a)
(* The chain that starts (ends) at n follows (precedes) a; what followed        *)
(* (preceded) a is a chain of its own.                                          *)
MergeNext(c, a, n) == Link(CutPrev(CutNext(c, a), n), a, n)
MergePrev(c, a, n) == Link(CutNext(CutPrev(c, a), n), n, a)
Empty(n) == [nx |-> [k \in 1..n |-> 0], pv |-> [k \in 1..n |-> 0]]
Apply(o, st) ==
  CASE o.op = "splicenext" -> [st EXCEPT !.c[o.t] = SpliceNext(@, o.a, o.n)]
    [] o.op = "spliceprev" -> [st EXCEPT !.c[o.t] = SplicePrev(@, o.a, o.n)]
    [] o.op = "mergenext"  -> [st EXCEPT !.c[o.t] = MergeNext(@, o.a, o.n)]
    [] o.op = "mergeprev"  -> [st EXCEPT !.c[o.t] = MergePrev(@, o.a, o.n)]
    [] o.op = "set"        -> [st EXCEPT !.it = o.n]
    [] o.op \in {"preinc", "postinc"} -> [st EXCEPT !.it = st.c[o.t].nx[@]]
    [] o.op \in {"predec", "postdec"} -> [st EXCEPT !.it = st.c[o.t].pv[@]]
    [] o.op = "look" -> st
(* Value of an iterator expression.                                             *)
Result(o, st) == CASE o.op \in {"preinc", "predec"} -> Apply(o, st).it
                   [] o.op \in {"postinc", "postdec"} -> st.it
                   [] OTHER -> 0
Legal(o, st) == CASE o.op \in {"splicenext", "spliceprev", "mergenext", "mergeprev"} -> o.a # o.n /\ o.a # 0
                  [] o.op \in {"preinc", "postinc", "predec", "postdec"} -> st.it # 0
                  [] OTHER -> TRUE
Symmetric(c) == \A a \in DOMAIN c.nx : \A b \in DOMAIN c.nx : c.nx[a] = b <=> c.pv[b] = a
Loopless(c) == \A a \in DOMAIN c.nx : c.nx[a] # a /\ c.pv[a] # a
=============================================================================
