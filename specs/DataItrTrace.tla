---------------------------- MODULE DataItrTrace ----------------------------
EXTENDS DataItr, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES st, tid, l
vars == <<st, tid, l>>
T == Traces[tid].t
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Start([i \in 1..T[1].n |-> 0], T[1].nx)
ObsOk(s, o) ==
  \A i \in DOMAIN s.x :
    /\ o.x[i] = <<s.x[i].p, s.x[i].d, Deref(s, i)>>
    /\ \A j \in DOMAIN s.x : /\ o.eq[i][j] = Same(s, i, j)
                             /\ o.walk[i][j] = Walk(s, i, j)
Next == \/ /\ l <= Len(T) /\ Legal(T[l].o, st) /\ st' = Apply(T[l].o, st) /\ ObsOk(st', T[l])
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
