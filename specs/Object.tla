------------------------------- MODULE Object -------------------------------
(* Wrappers of objects (Utility::IObject of bcl/utility.h). w: weak wrappers,  *)
(* which may be undefined (0); x: strong ones. A wrapper refers to an object   *)
(* by its number in h; a static wrapper has an object of its own, dynamic ones *)
(* share the object that they were copied from. h[o]: value, -1: destroyed.    *)
EXTENDS Integers, Sequences, FiniteSets
Live(st) == {o \in 1..Len(st.h) : st.h[o] # -1}
Users(st, o) == Cardinality({i \in DOMAIN st.w : st.w[i] = o}) + Cardinality({j \in DOMAIN st.x : st.x[j] = o})
(* Static objects are known by their wrappers only: 1..NW and NW + 1..NW + NS. *)
Start(kind, nw, ns) ==
  IF kind = "static" THEN [kind |-> kind, h |-> [o \in 1..(nw + ns) |-> 0], w |-> [i \in 1..nw |-> 0], x |-> [j \in 1..ns |-> nw + j]]
  ELSE [kind |-> kind, h |-> [o \in 1..ns |-> 0], w |-> [i \in 1..nw |-> 0], x |-> [j \in 1..ns |-> j]]
(* Wrapper k (a weak one, or a strong one after them) refers to o from now on, *)
(* or, when static, gets the value of o.                                       *)
Slot(st, k) == IF k <= Len(st.w) THEN st.w[k] ELSE st.x[k - Len(st.w)]
Put(st, k, o) == IF k <= Len(st.w) THEN [st EXCEPT !.w[k] = o] ELSE [st EXCEPT !.x[k - Len(st.w)] = o]
Take(st, k, o) ==
  IF o = 0 THEN Put(st, k, 0)
  ELSE IF st.kind = "static" THEN Put([st EXCEPT !.h[k] = st.h[o]], k, k)
  ELSE Put(st, k, o)
Fresh(st, k) ==
  IF st.kind = "static" THEN Put([st EXCEPT !.h[k] = 0], k, k)
  ELSE Put([st EXCEPT !.h = Append(@, 0)], k, Len(st.h) + 1)
Destroyed(st, o) == IF o = 0 \/ st.kind = "static" THEN st ELSE [st EXCEPT !.h[o] = -1]
(* The operations: a copy is made or assigned (make, set), a new object is     *)
(* created, deleted, forgotten, changed.                                       *)
Apply(o, st) ==
  LET k == o.k IN
  CASE o.op = "none" -> Put(st, k, 0)
    [] o.op = "new" -> Fresh(st, k)
    [] o.op \in {"make", "set"} -> Take(st, k, Slot(st, o.v))
    [] o.op = "delete" -> IF k <= Len(st.w) THEN Put(Destroyed(st, st.w[k]), k, 0)
                          ELSE IF st.kind = "static" THEN st
                          ELSE Fresh(Destroyed(st, Slot(st, k)), k)     \* and is renewed at once
    [] o.op = "reset" -> Put(st, k, 0)
    [] o.op = "put" -> [st EXCEPT !.h[Slot(st, k)] = o.v]
Legal(o, st) ==
  LET k == o.k  weak == o.k <= Len(st.w) IN
  CASE o.op \in {"none", "reset"} -> weak
    [] o.op = "make" -> o.v # k /\ (~weak => Slot(st, o.v) # 0)
    [] o.op = "set" -> ~weak => Slot(st, o.v) # 0
    [] o.op = "delete" -> Slot(st, k) = 0 \/ Users(st, Slot(st, k)) = 1
    [] o.op = "put" -> Slot(st, k) # 0
    [] OTHER -> TRUE
(* What is seen of a wrapper: whether it is defined, the value, and (dynamic)  *)
(* which object it is; and the objects that have not been destroyed.           *)
Seen(st, k) == LET o == Slot(st, k) IN
               IF o = 0 THEN <<FALSE>> ELSE <<TRUE, st.h[o], IF st.kind = "static" THEN 0 ELSE o>>
=============================================================================
