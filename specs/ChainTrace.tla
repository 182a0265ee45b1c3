---------------------------- MODULE ChainTrace ------------------------------
EXTENDS Chain, TLC, Json, IOUtils
CONSTANTS N, NT
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES st, tid, l
T == Traces[tid].t
vars == <<st, tid, l>>
Init == st = [c |-> [t \in 1..NT |-> Empty(N)], it |-> 0] /\ tid \in 1..Len(Traces) /\ l = 1
Next == \/ /\ l <= Len(T)
           /\ st' = Apply(T[l].o, st)
           /\ T[l].r = Result(T[l].o, st)
           /\ T[l].it = st'.it
           /\ \A t \in 1..NT : T[l].c[t].nx = st'.c[t].nx /\ T[l].c[t].pv = st'.c[t].pv
           /\ \A t \in 1..NT : T[l].c[t].in = (IF st'.it = 0 THEN 0 ELSE st'.c[t].nx[st'.it])
           /\ \A t \in 1..NT : T[l].c[t].ip = (IF st'.it = 0 THEN 0 ELSE st'.c[t].pv[st'.it])
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
