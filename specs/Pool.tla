-------------------------------- MODULE Pool --------------------------------
(* Values that know the pointer which refers to them (bcl/ValuePtrWrapper.h),  *)
(* in two vectors. A wrapper is <<pointer, value>>; pointers are numbered in   *)
(* the order of construction of wrappers.                                      *)
EXTENDS Integers, Sequences, FiniteSets
Empty == [a |-> <<>>, b |-> <<>>, n |-> 0]
Insert(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Delete(s, i, j) == SubSeq(s, 1, i - 1) \o SubSeq(s, j + 1, Len(s))
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
RECURSIVE StableSort(_)
Before(s, k, x) == k <= Len(s) /\ s[k][2] <= x[2]
RECURSIVE Place(_, _, _)
Place(s, k, x) == IF Before(s, k, x) THEN Place(s, k + 1, x) ELSE Insert(s, k, x)
StableSort(s) == IF s = <<>> THEN <<>>
                 ELSE Place(StableSort(SubSeq(s, 1, Len(s) - 1)), 1, s[Len(s)])
(* Operations on the first vector, "carry" moves a wrapper to the second one   *)
(* and "trade" exchanges the vectors.                                          *)
Apply(o, st) ==
  LET a == st.a  Put(s) == [st EXCEPT !.a = s] IN
  CASE o.op = "emplace" -> [st EXCEPT !.a = Insert(a, o.i, <<st.n + 1, o.v>>), !.n = @ + 1]
    [] o.op = "erase"   -> Put(Delete(a, o.i, o.j))
    [] o.op = "swap"    -> Put(Swap(a, o.i, o.j))
    [] o.op = "reverse" -> Put([k \in DOMAIN a |-> a[Len(a) + 1 - k]])
    [] o.op = "rotate"  -> Put(SubSeq(a, o.i, Len(a)) \o SubSeq(a, 1, o.i - 1))
    [] o.op = "sort"    -> Put(StableSort(a))
    [] o.op = "over"    -> Put(Delete([a EXCEPT ![o.i] = a[o.j]], o.j, o.j))
    [] o.op = "carry"   -> [st EXCEPT !.a = Delete(a, o.i, o.i), !.b = Append(@, a[o.i])]
    [] o.op \in {"set", "setp"} -> Put([a EXCEPT ![o.i][2] = o.v])
    [] o.op = "room"    -> st
    [] o.op = "trade"   -> [st EXCEPT !.a = st.b, !.b = st.a]
Legal(o, st) ==
  CASE o.op = "emplace" -> o.i \in 1..(Len(st.a) + 1)
    [] o.op = "erase"   -> 1 <= o.i /\ o.i <= o.j + 1 /\ o.j <= Len(st.a)
    [] o.op \in {"swap", "over"} -> {o.i, o.j} \subseteq DOMAIN st.a /\ o.i # o.j
    [] o.op \in {"rotate", "carry", "set", "setp"} -> o.i \in DOMAIN st.a
    [] OTHER -> TRUE
Pointers(st) == {st.a[i][1] : i \in DOMAIN st.a} \cup {st.b[i][1] : i \in DOMAIN st.b}
(* No two wrappers know one pointer.                                           *)
Single(st) == Cardinality(Pointers(st)) = Len(st.a) + Len(st.b)
=============================================================================
