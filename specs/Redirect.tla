------------------------------ MODULE Redirect ------------------------------
(* Redirection of descriptors to files (bcl/RedirectIO.h).                      *)
(* A state holds files (the content of a file is a sequence of runs             *)
(* <<byte, length>>), descriptors h (f[h]: the file behind it, 0: none) and     *)
(* redirection objects. A file is opened once at a time, so that the offset and *)
(* the mode of its open description are kept with the file.                     *)
EXTENDS Integers, Sequences
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Size(_), Pre(_, _), Cut(_, _)
Size(c) == IF c = <<>> THEN 0 ELSE Head(c)[2] + Size(Tail(c))
Pre(c, k) == IF c = <<>> \/ k = 0 THEN <<>>
             ELSE LET m == Min(k, Head(c)[2]) IN <<<<Head(c)[1], m>>>> \o Pre(Tail(c), k - m)
Cut(c, k) == IF c = <<>> \/ k = 0 THEN c
             ELSE IF k >= Head(c)[2] THEN Cut(Tail(c), k - Head(c)[2])
             ELSE <<<<Head(c)[1], Head(c)[2] - k>>>> \o Tail(c)
Cat(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
             ELSE IF a[Len(a)][1] # b[1][1] THEN a \o b
             ELSE SubSeq(a, 1, Len(a) - 1) \o <<<<b[1][1], a[Len(a)][2] + b[1][2]>>>> \o Tail(b)
Over(c, off, b, n) == Cat(Cat(Pre(c, off), <<<<b, n>>>>), Cut(c, off + n))

(* k: "none" default constructed, "moved" moved away, "fail" not open, "open".  *)
(* er: codes of the errors in the order they occurred.                          *)
None == [k |-> "none", file |-> 0, pos |-> 0, start |-> 0, er |-> <<>>]
Moved == [None EXCEPT !.k = "moved"]
Closed == [ex |-> FALSE, c |-> <<>>, off |-> 0, app |-> FALSE, rd |-> FALSE]
Start(nf, nh, no) == [fs |-> [i \in 1..nf |-> Closed], f |-> [h \in 1..nh |-> 0], o |-> [i \in 1..no |-> None]]

(* File 0 stands for a path that can not be opened, file -1 for a pipe (opened,  *)
(* but without positions), descriptor 0 for one that can not be redirected.                                                       *)
Live(st, x, h, i) == (\E g \in DOMAIN st.f : g # h /\ st.f[g] = x)
                     \/ (\E j \in DOMAIN st.o : j # i /\ st.o[j].k = "open" /\ st.o[j].file = x)
IsOpen(st, i) == st.o[i].k = "open"
Legal(o, st) ==
  CASE o.op = "open"  -> /\ o.x = 0 \/ (o.x = -1 /\ o.m # "a") \/ (o.x > 0 /\ ~Live(st, o.x, o.h, o.i))
                         /\ o.n > 0 /\ o.h > 0 => st.f[o.h] # o.x \/ o.x = 0
    [] o.op \in {"put", "get"} -> st.f[o.h] > 0
    [] o.op = "isdiff" -> st.o[o.i].k # "moved"
    [] o.op \in {"diff", "setpos", "reset"} -> IsOpen(st, o.i)
    [] o.op = "new"    -> o.i # o.j
    [] OTHER -> TRUE

Opened(x, m) ==
  CASE m = "w" -> [ex |-> TRUE, c |-> <<>>, off |-> 0, app |-> FALSE, rd |-> FALSE]
    [] m = "a" -> [ex |-> TRUE, c |-> x.c, off |-> Size(x.c), app |-> TRUE, rd |-> FALSE]
    [] m = "r" -> [x EXCEPT !.off = 0, !.app = FALSE, !.rd = TRUE]
Obj(k, x, pos, er) == [k |-> k, file |-> x, pos |-> pos, start |-> pos, er |-> er]
Open(o, st) ==
  LET x == o.x IN
  IF x = -1 THEN IF o.h = 0 THEN [st EXCEPT !.o[o.i] = Obj("fail", x, 0, <<9>>)]
                 ELSE [st EXCEPT !.f[o.h] = -1, !.o[o.i] = Obj("fail", x, 0, <<29>>)]
  ELSE IF x = 0 \/ (o.m = "r" /\ ~st.fs[x].ex) THEN [st EXCEPT !.o[o.i] = Obj("fail", x, 0, <<2>>)]
  ELSE LET y == Opened(st.fs[x], o.m) IN
       IF o.h = 0 THEN [st EXCEPT !.fs[x].ex = TRUE, !.fs[x].c = y.c, !.o[o.i] = Obj("fail", x, 0, <<9>>)]
       ELSE [st EXCEPT !.fs[x] = y, !.f[o.h] = x, !.o[o.i] = Obj("open", x, y.off, <<>>)]
Put(o, st) ==
  LET x == st.f[o.h]
      y == st.fs[x]
      p == IF y.app THEN Size(y.c) ELSE y.off
  IN [st EXCEPT !.fs[x].c = Over(@, p, o.b, o.n), !.fs[x].off = p + o.n]
(* The changes since the position; of input what has not been read yet.         *)
Rest(st, i) == LET x == st.fs[st.o[i].file] IN Cut(x.c, IF x.rd THEN x.off ELSE st.o[i].pos)
Differs(st, i) == IsOpen(st, i) /\ st.fs[st.o[i].file].off # st.o[i].pos
Apply(o, st) ==
  CASE o.op = "open"   -> Open(o, st)
    [] o.op = "put"    -> Put(o, st)
    [] o.op = "get"    -> LET x == st.f[o.h] IN [st EXCEPT !.fs[x].off = Min(Size(st.fs[x].c), @ + o.n)]
    [] o.op = "isdiff" -> IF st.o[o.i].k = "fail" THEN [st EXCEPT !.o[o.i].er = Append(@, 22)] ELSE st
    [] o.op = "diff"   -> st
    [] o.op = "setpos" -> [st EXCEPT !.o[o.i].pos = st.fs[st.o[o.i].file].off]
    [] o.op = "reset"  -> [st EXCEPT !.o[o.i].pos = st.o[o.i].start]
    [] o.op = "move"   -> IF o.i = o.j THEN st ELSE [st EXCEPT !.o[o.i] = st.o[o.j], !.o[o.j] = Moved]
    [] o.op = "new"    -> [st EXCEPT !.o[o.i] = st.o[o.j], !.o[o.j] = Moved]
    [] o.op = "drop"   -> [st EXCEPT !.o[o.i] = None]
    [] o.op = "close"  -> [st EXCEPT !.f[o.h] = 0]
    [] OTHER -> st
(* What the operation returns.                                                  *)
Result(o, st) ==
  CASE o.op = "isdiff" -> Differs(st, o.i)
    [] o.op = "diff"   -> IF Differs(st, o.i) \/ st.fs[st.o[o.i].file].rd THEN Rest(st, o.i) ELSE <<>>
    [] o.op = "get"    -> LET x == st.fs[st.f[o.h]] IN Pre(Cut(x.c, x.off), o.n)
    [] o.op = "setpos" -> TRUE
    [] OTHER -> 0
(* What an operation leaves behind and returns, flt says whether a call of the    *)
(* library failed with error 5 in it ("close": while it closed a file). Number n   *)
(* of an operation selects the call that fails, if there are as many.              *)
Err(st, i, e) == [st EXCEPT !.o[i].er = Append(@, e)]
Half(o, st) == \* states in which an unsuccessful opening may leave files and descriptors
  LET x == o.x
      y == Opened(st.fs[x], o.m)
  IN {st} \cup (IF x = 0 THEN {} ELSE IF x = -1 THEN (IF o.h = 0 THEN {} ELSE {[st EXCEPT !.f[o.h] = -1]})
      ELSE IF o.m = "r" /\ ~ st.fs[x].ex THEN {}
      ELSE {[st EXCEPT !.fs[x].ex = TRUE, !.fs[x].c = y.c]}
           \cup (IF o.h = 0 THEN {} ELSE {[st EXCEPT !.fs[x] = [y EXCEPT !.off = p], !.f[o.h] = x] : p \in IF y.app THEN 0..y.off ELSE {y.off}}))
Outcomes(o, st, flt) ==
  LET normal == [st |-> Apply(o, st), r |-> Result(o, st)] IN
  CASE flt = "" \/ o.op \notin {"open", "isdiff", "diff", "setpos"} -> {normal}
    [] flt = "close" /\ o.op = "open" -> {normal} \cup (IF normal.st.o[o.i].k = "fail" THEN {[normal EXCEPT !.st = Err(@, o.i, 5)]} ELSE {})
    [] flt = "other" /\ o.op = "open" -> {[st |-> [s EXCEPT !.o[o.i] = Obj("fail", o.x, 0, <<5>>)], r |-> 0] : s \in Half(o, st)}
    [] flt = "other" /\ o.op \in {"isdiff", "setpos"} -> {[st |-> Err(st, o.i, 5), r |-> FALSE]}
    [] flt = "other" /\ o.op = "diff" ->
         LET e == Err(st, o.i, 5)
             x == st.o[o.i].file
         IN {[st |-> s, r |-> <<>>] : s \in {e} \cup (IF st.fs[x].rd THEN {[e EXCEPT !.fs[x].off = p] : p \in st.fs[x].off..Size(st.fs[x].c)} ELSE {})}
    [] OTHER -> {}
(* What descriptors are redirected to.                                             *)
At(st) == [h \in DOMAIN st.f |-> <<st.f[h], IF st.f[h] > 0 THEN st.fs[st.f[h]].off ELSE 0>>]
May(x) == x.k \in {"fail", "open"}
=============================================================================
