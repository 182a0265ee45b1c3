------------------------------ MODULE DataItr -------------------------------
(* Iterators with attached data (bcl/IteratorDataAdaptor.h) over a sequence    *)
(* el. An iterator is [p |-> position, d |-> data]; position Len(el) + 1 is    *)
(* the end.                                                                    *)
EXTENDS Integers, Sequences
Start(el, k) == [el |-> el, x |-> [i \in 1..k |-> [p |-> 1, d |-> 0]]]
Last(st) == Len(st.el) + 1
Apply(o, st) ==
  LET i == o.i  j == o.j IN
  CASE o.op = "pre"  -> LET n == [st.x[i] EXCEPT !.p = @ + 1] IN [st EXCEPT !.x = [[@ EXCEPT ![i] = n] EXCEPT ![j] = n]]
    [] o.op = "post" -> LET n == [st.x[i] EXCEPT !.p = @ + 1] IN [st EXCEPT !.x = [[@ EXCEPT ![i] = n] EXCEPT ![j] = st.x[i]]]
    [] o.op = "copy" -> [st EXCEPT !.x[j] = st.x[i]]
    [] o.op = "make" -> [st EXCEPT !.x[i] = [p |-> o.v, d |-> o.j]]
    [] o.op = "data" -> [st EXCEPT !.x[i].d = o.v]
    [] o.op = "itr"  -> [st EXCEPT !.x[i].p = o.v]
    [] o.op = "put"  -> [st EXCEPT !.el[st.x[i].p] = o.v]
Legal(o, st) ==
  CASE o.op \in {"pre", "post"} -> st.x[o.i].p < Last(st)
    [] o.op = "put" -> st.x[o.i].p < Last(st)
    [] o.op \in {"itr", "make"} -> o.v \in 1..Last(st)
    [] OTHER -> TRUE
(* What an iterator points to, and what a loop from i to j passes.             *)
Deref(st, i) == IF st.x[i].p = Last(st) THEN <<>> ELSE <<st.el[st.x[i].p], st.x[i].d>>
Walk(st, i, j) == IF st.x[i].d # st.x[j].d \/ st.x[i].p > st.x[j].p THEN <<>>
                  ELSE [k \in 1..(st.x[j].p - st.x[i].p) |-> <<st.el[st.x[i].p + k - 1], st.x[i].d>>]
Same(st, i, j) == st.x[i] = st.x[j]
=============================================================================
