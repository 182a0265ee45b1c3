----------------------------- MODULE ValueTrace -----------------------------
EXTENDS Value, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES st, tid, l
T == Traces[tid].t
vars == <<st, tid, l>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ st = IF "w" \in DOMAIN Traces[tid].t[1] THEN Start(Len(T[1].w), Len(T[1].s)) ELSE Start(0, 0)
(* cmp: all weak and strong values and all plain values compared with each     *)
(* other, at least one of the two being weak; und: compared with undef.        *)
Items(s, nv) == s.w \o s.s \o [v \in 1..nv |-> v]
Step(e) ==
  /\ Legal(e.o, st)
  /\ e.r = Throws(e.o, st)
  /\ st' = Apply(e.o, st)
  /\ e.w = st'.w /\ e.s = st'.s /\ e.p = st'.w
  /\ LET x == Items(st', e.nv)
         n == Len(st'.w)
         m == n + Len(st'.s)
     IN /\ \A i, j \in DOMAIN x : (i <= n \/ j <= n) => e.cmp[i][j] = Compare(x[i], x[j])
        /\ \A i \in 1..m : e.und[i] = <<Undef(x[i]), Undef(x[i])>>
        /\ e.mix # <<>> => \A i, j \in 1..n : e.mix[i][j] = Compare(x[i], x[j])
Logic(e) ==
  /\ st' = st
  /\ CASE e.f = "cond"   -> e.r = Holds(e.c) /\ e.chosen = Chosen(e.c, e.t, e.u)
       [] e.f = "numbers" -> e.r = Numbers(e.a, e.b)
       [] e.f = "traits" -> e.r = Traits(e.t)
Next == \/ /\ l <= Len(T)
           /\ IF "f" \in DOMAIN T[l] THEN Logic(T[l]) ELSE Step(T[l])
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
