------------------------------- MODULE MArray -------------------------------
(* Multidimensional arrays (bcl/marray.h, bcl/marray_f.h). A slot is empty (no *)
(* object, or one that has been moved from) or holds an array: sizes of the    *)
(* dimensions and an element for every tuple of indexes.                       *)
EXTENDS Integers, Sequences, FiniteSets
Range(f) == {f[i] : i \in DOMAIN f}
RECURSIVE Indexes(_)
Indexes(dims) == IF dims = <<>> THEN {<<>>}
                 ELSE {<<i>> \o x : i \in 0..(Head(dims) - 1), x \in Indexes(Tail(dims))}
None == [own |-> FALSE, dims |-> <<>>, el |-> <<>>]
Fresh(dims) == [own |-> TRUE, dims |-> dims, el |-> [x \in Indexes(dims) |-> 0]]
(* "new" and "renew" build a new array in the slot (renew: move-assigned from  *)
(* a temporary), "row" assigns all elements with the first index x[1] the      *)
(* value v + their last index.                                                 *)
Apply(o, st) ==
  CASE o.op \in {"new", "renew"} -> [st EXCEPT ![o.i] = Fresh(o.x)]
    [] o.op = "set"              -> [st EXCEPT ![o.i].el[o.x] = o.v]
    [] o.op = "row"              -> [st EXCEPT ![o.i].el = [x \in DOMAIN @ |-> IF x[1] = o.x[1] THEN o.v + x[Len(x)] ELSE @[x]]]
    [] o.op \in {"move", "ctor"} -> IF o.i = o.j THEN st ELSE [st EXCEPT ![o.i] = st[o.j], ![o.j] = None]
    [] o.op = "destroy"          -> [st EXCEPT ![o.i] = None]
(* An array too large to look at as a whole: of the pairs w of indexes and     *)
(* values which are written, r is what is read afterwards.                     *)
LargeOk(dims, w, r) ==
  /\ \A e \in Range(w) : \A k \in DOMAIN dims : e[1][k] \in 0..(dims[k] - 1)
  /\ Len(r) = Len(w)
  /\ \A n \in DOMAIN w : LET last == CHOOSE m \in DOMAIN w : w[m][1] = w[n][1] /\ \A q \in (m + 1)..Len(w) : w[q][1] # w[n][1]
                         IN r[n] = w[last]
Legal(o, st) ==
  CASE o.op = "set" -> st[o.i].own /\ o.x \in DOMAIN st[o.i].el
    [] o.op = "row" -> st[o.i].own /\ o.x[1] \in 0..(st[o.i].dims[1] - 1)
    [] o.op = "ctor" -> o.i # o.j
    [] OTHER -> TRUE
Elements(st) == LET RECURSIVE Sum(_)
                    Sum(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN
                              Cardinality(DOMAIN st[i].el) + Sum(S \ {i})
                IN Sum({i \in DOMAIN st : st[i].own})
=============================================================================
