------------------------------ MODULE ValueGen ------------------------------
(* All transitions of small worlds.                                            *)
EXTENDS Value, TLC, Json
CONSTANTS NW, NS, NV, Fails
VARIABLES st, op
O(n, i, j, v) == [op |-> n, i |-> i, j |-> j, v |-> v, x |-> FALSE]
Plain == {O(n, i, 0, 0) : n \in {"wnew", "wnull", "tow0"}, i \in 1..NW}
       \cup {O(n, i, 0, v) : n \in {"wval", "towv", "put"}, i \in 1..NW, v \in 1..NV}
       \cup {O(n, i, j, 0) : n \in {"wcopy", "toww"}, i \in 1..NW, j \in 1..NW}
       \cup {O(n, i, j, 0) : n \in {"wstrong", "tows"}, i \in 1..NW, j \in 1..NS}
       \cup {O(n, i, 0, v) : n \in {"snew", "tosv", "sput"}, i \in 1..NS, v \in 1..NV}
       \cup {O(n, i, j, 0) : n \in {"scopyw", "tosw"}, i \in 1..NS, j \in 1..NW}
       \cup {O(n, i, j, 0) : n \in {"scopys", "toss"}, i \in 1..NS, j \in 1..NS}
Ops == Plain \cup IF Fails THEN {[o EXCEPT !.x = TRUE] : o \in Plain} ELSE {}
Init == st = Start(NW, NS) /\ op = <<>>
Next == \E o \in Ops : Legal(o, st) /\ st' = Apply(o, st) /\ op' = o
Spec == Init /\ [][Next]_<<st, op>>
View == st
EmitEdge == PrintT(ToJson([s |-> ToString(st), o |-> op', t |-> ToString(st')]))
(* A strong value is never undefined; equality is an equivalence, order is      *)
(* consistent with it among defined values; only one object changes.            *)
Strong == \A i \in 1..NS : st.s[i] \in 1..NV
Vals == 0..NV
Has(x, n) == (x \div n) % 2 = 1
Laws == \A a, b \in Vals :
  /\ Has(Compare(a, b), 1) = Has(Compare(b, a), 1)
  /\ Has(Compare(a, b), 1) # Has(Compare(a, b), 2)
  /\ Has(Compare(a, b), 4) = Has(Compare(b, a), 16) /\ Has(Compare(a, b), 8) = Has(Compare(b, a), 32)
  /\ a # 0 /\ b # 0 => Has(Compare(a, b), 4) # Has(Compare(a, b), 32)
OneChanges ==
  [][\/ NS > 0 /\ st'.w = st.w
     \/ st'.s = st.s /\ (\E i \in 1..NW : \A k \in (1..NW) \ {i} : st'.w[k] = st.w[k])]_<<st, op>>
=============================================================================
