---------------------------- MODULE TaggedTrace -----------------------------
EXTENDS Tagged, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES st, tid, l
vars == <<st, tid, l>>
T == Traces[tid].t
H == T[1]
Init == tid \in 1..Len(Traces) /\ l = 2 /\ st = [i \in 1..2 |-> Zero(Traces[tid].t[1].E)]
Next == \/ /\ l <= Len(T) /\ (l = 2 => HeaderOk(H)) /\ Legal(H.E, T[l].o, st)
           /\ st' = Apply(H.E, T[l].o, st)
           /\ \A i \in 1..2 : ObjOk(H, st'[i], T[l].s[i])
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
