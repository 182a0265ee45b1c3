------------------------------- MODULE Queue -------------------------------
(* The queue of pointers as a user sees it: N queues, each a FIFO sequence of  *)
(* element names.  0 is the null pointer; element names are ordered as the     *)
(* addresses they stand for.                                                   *)
EXTENDS Naturals, Sequences, SequencesExt

Has(r, f) == f \in DOMAIN r

\* Lexicographic order on sequences of element names.
RECURSIVE LexLess(_, _)
LexLess(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF Head(a) < Head(b) THEN TRUE
  ELSE IF Head(b) < Head(a) THEN FALSE
  ELSE LexLess(Tail(a), Tail(b))

Cmp(a, b) == [eq |-> a = b, ne |-> a # b,
              lt |-> LexLess(a, b), gt |-> LexLess(b, a),
              le |-> ~LexLess(b, a), ge |-> ~LexLess(a, b)]

\* o: [op, i, j, v].  The queues after o.
Apply(o, q) ==
  CASE o.op \in {"push", "emplace"} -> [q EXCEPT ![o.i] = Append(@, o.v)]
    [] o.op = "emplace0"            -> [q EXCEPT ![o.i] = Append(@, 0)]
    \* the argument is a reference into queue j (perhaps the same queue)
    [] o.op \in {"pushfront", "emplfront"} -> [q EXCEPT ![o.i] = IF q[o.j] = <<>> THEN @ ELSE Append(@, Head(q[o.j]))]
    [] o.op = "emplback"            -> [q EXCEPT ![o.i] = IF q[o.j] = <<>> THEN @ ELSE Append(@, Last(q[o.j]))]
    [] o.op = "pop"                 -> [q EXCEPT ![o.i] = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] o.op = "setfront"            -> [q EXCEPT ![o.i] = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![1] = o.v]]
    [] o.op = "setback"             -> [q EXCEPT ![o.i] = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)] = o.v]]
    [] o.op = "new"                 -> [q EXCEPT ![o.i] = <<>>]
    [] o.op = "new1"                -> [q EXCEPT ![o.i] = <<o.v>>]
    [] o.op \in {"copyctor", "copyassign"} -> [q EXCEPT ![o.i] = q[o.j]]
    [] o.op \in {"movector", "moveassign"} ->
         IF o.i = o.j THEN q ELSE [q EXCEPT ![o.i] = q[o.j], ![o.j] = <<>>]
    [] o.op \in {"swap", "fswap"}   -> [q EXCEPT ![o.i] = q[o.j], ![o.j] = q[o.i]]
    [] o.op = "cmp"                 -> q

\* What the call itself returns (an integer; 0 where nothing is returned).
Result(o, q) == IF o.op = "pop" /\ q[o.i] # <<>> THEN Head(q[o.i]) ELSE 0

\* An operation that runs out of memory changes nothing; a queue whose
\* construction fails is replaced by an empty one.  Only operations that add
\* elements, copy or compare may run out of memory.
MayThrow(o) == o.op \in {"push", "emplace", "emplace0", "pushfront", "emplfront", "emplback", "copyctor", "copyassign", "cmp"}
Thrown(o, q) == IF o.op = "copyctor" THEN [q EXCEPT ![o.i] = <<>>] ELSE q

\* m[i]: queue i has held two elements at once since it was created, or took over
\* the contents of such a queue.
MultiAfter(o, q, m) ==
  CASE o.op \in {"push", "emplace", "emplace0"} -> [m EXCEPT ![o.i] = @ \/ q[o.i] # <<>>]
    [] o.op \in {"pushfront", "emplfront", "emplback"} -> [m EXCEPT ![o.i] = @ \/ (q[o.i] # <<>> /\ q[o.j] # <<>>)]
    [] o.op \in {"new", "new1"} -> [m EXCEPT ![o.i] = FALSE]
    [] o.op \in {"copyctor", "copyassign"} -> [m EXCEPT ![o.i] = m[o.j]]
    [] o.op \in {"movector", "moveassign"} ->
         IF o.i = o.j THEN m ELSE [m EXCEPT ![o.i] = m[o.j], ![o.j] = FALSE]
    [] o.op \in {"swap", "fswap"} -> [m EXCEPT ![o.i] = m[o.j], ![o.j] = m[o.i]]
    [] OTHER -> m

\* Operations that touch only queues of at most one element allocate nothing.
\* (Comparisons may build temporaries.)
MustNotAllocate(o, q, m) ==
  LET S == {o.i} \cup (IF o.j = 0 THEN {} ELSE {o.j}) m2 == MultiAfter(o, q, m)
  IN o.op # "cmp" /\ \A k \in S : ~m[k] /\ ~m2[k]

\* What is observable about one queue: elements in FIFO order and both ends.
Proj(s) == [els |-> s, size |-> Len(s), empty |-> s = <<>>,
            front |-> IF s = <<>> THEN 0 ELSE Head(s),
            back |-> IF s = <<>> THEN 0 ELSE Last(s)]
=============================================================================
