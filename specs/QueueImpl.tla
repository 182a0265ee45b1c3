----------------------------- MODULE QueueImpl -----------------------------
(* Implementation-shaped queue: a value stored in place while the queue never  *)
(* held more than one element, a heap container from the second element on.    *)
(* TLC checks that it refines Queue and prints one behaviour per transition;   *)
(* each is executed on the real class.                                         *)
EXTENDS Queue, Integers, TLC, Json
CONSTANTS N, Elems, MaxLen, Cmps, Emit
VARIABLES r, q, m, path
vars == <<r, q, m, path>>
View == <<r, q, m>>

Q == 1..N
Single(e, v) == [single |-> TRUE, empty |-> e, val |-> v, seq |-> <<>>]
Multi(s) == [single |-> FALSE, empty |-> FALSE, val |-> 0, seq |-> s]
Abs(x) == IF x.single THEN (IF x.empty THEN <<>> ELSE <<x.val>>) ELSE x.seq

RPush(x, v) == IF x.single
               THEN IF x.empty THEN Single(FALSE, v) ELSE Multi(<<x.val, v>>)
               ELSE Multi(Append(x.seq, v))
RPop(x) == IF x.single THEN Single(TRUE, 0)
           ELSE Multi(IF x.seq = <<>> THEN <<>> ELSE Tail(x.seq))
RFront(x) == IF x.single THEN x.val ELSE IF x.seq = <<>> THEN 0 ELSE Head(x.seq)
RSet(x, k, v) == IF Abs(x) = <<>> THEN x
                 ELSE IF x.single THEN Single(FALSE, v)
                 ELSE Multi([x.seq EXCEPT ![IF k = "front" THEN 1 ELSE Len(x.seq)] = v])

RApply(o, s) ==
  CASE o.op \in {"push", "emplace"} -> [s EXCEPT ![o.i] = RPush(@, o.v)]
    [] o.op = "emplace0" -> [s EXCEPT ![o.i] = RPush(@, 0)]
    [] o.op \in {"pushfront", "emplfront"} -> [s EXCEPT ![o.i] = IF Abs(s[o.j]) = <<>> THEN @ ELSE RPush(@, RFront(s[o.j]))]
    [] o.op = "emplback" -> [s EXCEPT ![o.i] = IF Abs(s[o.j]) = <<>> THEN @ ELSE RPush(@, Last(Abs(s[o.j])))]
    [] o.op = "pop"      -> [s EXCEPT ![o.i] = RPop(@)]
    [] o.op = "setfront" -> [s EXCEPT ![o.i] = RSet(@, "front", o.v)]
    [] o.op = "setback"  -> [s EXCEPT ![o.i] = RSet(@, "back", o.v)]
    [] o.op = "new"      -> [s EXCEPT ![o.i] = Single(TRUE, 0)]
    [] o.op = "new1"     -> [s EXCEPT ![o.i] = Single(FALSE, o.v)]
    [] o.op \in {"copyctor", "copyassign"} -> [s EXCEPT ![o.i] = s[o.j]]
    [] o.op \in {"movector", "moveassign"} ->
         IF o.i = o.j THEN s ELSE [s EXCEPT ![o.i] = s[o.j], ![o.j] = Single(TRUE, 0)]
    [] o.op \in {"swap", "fswap"} -> [s EXCEPT ![o.i] = s[o.j], ![o.j] = s[o.i]]
    [] o.op = "cmp" -> s

Op(n, i, j, v) == [op |-> n, i |-> i, j |-> j, v |-> v]
Ops ==
  {Op(n, i, 0, v) : n \in {"push", "emplace", "new1", "setfront", "setback"}, i \in Q, v \in Elems}
  \cup {Op(n, i, 0, 0) : n \in {"pop", "new", "emplace0"}, i \in Q}
  \cup {Op(n, i, j, 0) : n \in {"copyassign", "swap", "fswap", "emplfront", "emplback"}, i \in Q, j \in Q}
  \cup {o \in {Op(n, i, j, 0) : n \in {"copyctor", "movector", "moveassign"}, i \in Q, j \in Q} : o.i # o.j}
CmpOps == {Op("cmp", i, j, 0) : i \in Q, j \in Q}

Init == r = [i \in Q |-> Single(TRUE, 0)] /\ q = [i \in Q |-> <<>>] /\ m = [i \in Q |-> FALSE] /\ path = <<>>
Do(o) == /\ r' = RApply(o, r)
         /\ q' = Apply(o, q)
         /\ \A i \in Q : Len(q'[i]) <= MaxLen
         /\ m' = MultiAfter(o, q, m)
         /\ path' = Append(path, [o |-> o, noalloc |-> MustNotAllocate(o, q, m), res |-> Result(o, q),
                                  cmp |-> IF o.op = "cmp" THEN <<Cmp(q[o.i], q[o.j])>> ELSE <<>>,
                                  obs |-> [i \in Q |-> Proj(q'[i])]])
Next == \E o \in (IF Cmps THEN Ops \cup CmpOps ELSE Ops) : Do(o)
Spec == Init /\ [][Next]_vars

\* Refinement: the representation always stands for the FIFO sequence, and pop
\* returns the element the FIFO specification says.
Refines == \A i \in Q : Abs(r[i]) = q[i] /\ RFront(r[i]) = (IF q[i] = <<>> THEN 0 ELSE Head(q[i]))
\* A queue that never held two elements needs no container.
NoContainer == \A i \in Q : ~m[i] => r[i].single
\* The comparisons are one total order on contents.
TotalOrder == \A i, j \in Q : LET c == Cmp(q[i], q[j]) IN
   /\ (IF c.eq THEN 1 ELSE 0) + (IF c.lt THEN 1 ELSE 0) + (IF c.gt THEN 1 ELSE 0) = 1
   /\ c.ne = ~c.eq /\ c.le = (c.lt \/ c.eq) /\ c.ge = (c.gt \/ c.eq)

EmitPath == IF Emit THEN PrintT(ToJson(path')) ELSE TRUE
=============================================================================
