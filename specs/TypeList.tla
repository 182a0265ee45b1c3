------------------------------ MODULE TypeList ------------------------------
(* Lists of types and keys of static maps (bcl/cell.h, bcl/utility.h): types   *)
(* are numbers, lists are sequences of them.                                   *)
EXTENDS Integers, Sequences, FiniteSets
Range(f) == {f[i] : i \in DOMAIN f}
Contained(t, a) == t \in Range(a)
(* Position of the first occurrence, counted from zero.                        *)
IndexOf(t, a) == (CHOOSE i \in DOMAIN a : a[i] = t /\ \A j \in 1..(i - 1) : a[j] # t) - 1
Filter(a, Keep(_)) == SelectSeq(a, Keep)
Merge(a, b) == a \o b
Intersect(a, b) == LET K(t) == Contained(t, b) IN Filter(a, K)
RemoveType(t, a) == LET K(u) == u # t IN Filter(a, K)
(* Of equal types the last one stays.                                          *)
RECURSIVE NoDuplicates(_)
NoDuplicates(a) == IF a = <<>> THEN a
                   ELSE IF Contained(Head(a), Tail(a)) THEN NoDuplicates(Tail(a))
                   ELSE <<Head(a)>> \o NoDuplicates(Tail(a))
Reverse(a) == [i \in DOMAIN a |-> a[Len(a) + 1 - i]]
From(t, a) == IF Contained(t, a) THEN SubSeq(a, IndexOf(t, a) + 1, Len(a)) ELSE <<>>
Distinct(a) == Cardinality(Range(a)) = Len(a)

(* What a program observes of the lists a and b among the types 1..n.          *)
ListOk(n, a, b, o) ==
  /\ o.size = Len(a) /\ o.usize = Len(a)
  /\ o.each = a /\ o.forward = a
  /\ \A t \in 1..n :
       /\ o.exist[t] = Contained(t, a) /\ o.uexist[t] = Contained(t, a)
       /\ o.index[t] = IF Contained(t, a) THEN IndexOf(t, a) ELSE 99
       /\ o.uindex[t] = o.index[t]
       /\ o.remove[t] = RemoveType(t, a)
  /\ o.merge = Merge(a, b)
  /\ o.intersect = Intersect(a, b)
  /\ o.nodup = NoDuplicates(a)
MapOk(n, a, b, o) ==
  /\ o.keys = a /\ o.empty = (a = <<>>)
  /\ o.reverse = Reverse(a)
  /\ \A t \in 1..n : o.cell[t] = Contained(t, a) /\ o.from[t] = From(t, a)
  /\ Len(o.cons) = Len(a) /\ Range(o.cons) = Range(a)
  /\ Range(a) \cap Range(b) = {} => o.mmerge = a \o b
(* Legacy collections of cells (Base::Cell).                                   *)
CellsOk(n, a, b, o) ==
  /\ o.reverse = Reverse(a) /\ o.merge = a \o b
  /\ \A t \in 1..n : o.cell[t] = Contained(t, a) /\ o.from[t] = From(t, a)
Ok(n, a, b, o) == ListOk(n, a, b, o.l) /\ (Distinct(a) /\ Distinct(b) => MapOk(n, a, b, o.m))
                  /\ (("g" \in DOMAIN o) => CellsOk(n, a, b, o.g))
=============================================================================
