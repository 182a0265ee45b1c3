---------------------------- MODULE RedirectGen ------------------------------
EXTENDS Redirect, TLC, Json, FiniteSets
CONSTANTS NF, NH, NO, Odd, Len1, Bytes, Modes, MaxSize
VARIABLES st, op
Paths == (IF Odd THEN {-1, 0} ELSE {}) \cup 1..NF
View == st
Op(n, i, j, x, h, m, b, k) == [op |-> n, i |-> i, j |-> j, x |-> x, h |-> h, m |-> m, b |-> b, n |-> k]
Ops == {Op("open", i, 0, x, h, m, 0, 0) : i \in 1..NO, x \in Paths, h \in 0..NH, m \in Modes}
       \cup {Op("put", 0, 0, 0, h, "", b, k) : h \in 1..NH, b \in Bytes, k \in Len1}
       \cup {Op("get", 0, 0, 0, h, "", 0, 1) : h \in 1..NH}
       \cup {Op(n, i, 0, 0, 0, "", 0, 0) : n \in {"isdiff", "diff", "setpos", "reset", "drop"}, i \in 1..NO}
       \cup {Op(n, i, j, 0, 0, "", 0, 0) : n \in {"move", "new"}, i \in 1..NO, j \in 1..NO}
       \cup {Op("close", 0, 0, 0, h, "", 0, 0) : h \in 1..NH}
Init == st = Start(NF, NH, NO) /\ op = <<>>
Next == \E o \in Ops : Legal(o, st) /\ st' = Apply(o, st) /\ op' = o
Spec == Init /\ [][Next]_<<st, op>>
Small == (\A x \in 1..NF : Size(st.fs[x].c) <= MaxSize) /\ (\A i \in 1..NO : Len(st.o[i].er) <= 2)
Key(x) == ToString(<<[i \in 1..NF |-> LET y == x.fs[i] IN <<y.ex, y.c, y.off, y.app, y.rd>>], x.f,
                     [i \in 1..NO |-> LET y == x.o[i] IN <<y.k, y.file, y.pos, y.start, y.er>>]>>)
EmitEdge == Small' => PrintT(ToJson([s |-> Key(st), o |-> op', t |-> Key(st')]))
(* Output is never lost: what has been written since a position is what diff()  *)
(* returns, a redirection is not undone by the end of its object, and an output *)
(* file is always written at its end.                                           *)
RECURSIVE Merged(_)
Merged(c) == IF Len(c) < 2 THEN TRUE ELSE c[1][1] # c[2][1] /\ Merged(Tail(c))
Canonical == \A x \in 1..NF : Merged(st.fs[x].c)
AtEnd == \A x \in 1..NF : st.fs[x].ex /\ ~st.fs[x].rd /\ (\E h \in 1..NH : st.f[h] = x) => st.fs[x].off = Size(st.fs[x].c)
Positions == \A i \in 1..NO : IsOpen(st, i) => st.o[i].start <= st.o[i].pos /\ st.o[i].pos <= Size(st.fs[st.o[i].file].c)
OneOwner == \A i, j \in 1..NO : i # j /\ IsOpen(st, i) /\ IsOpen(st, j) => st.o[i].file # st.o[j].file
Redirected == [][\A h \in 1..NH : st.f[h] # 0 /\ op'.op \notin {"open", "close"} => st'.f[h] = st.f[h]]_<<st, op>>
DiffIsWhatWasWritten ==
  [][op'.op = "put" => \A i \in 1..NO : IsOpen(st, i) /\ st.o[i].file = st.f[op'.h] /\ ~st.fs[st.o[i].file].rd
        => Rest(st', i) = Cat(Rest(st, i), <<<<op'.b, op'.n>>>>)]_<<st, op>>
=============================================================================
