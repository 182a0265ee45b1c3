---------------------------- MODULE MArrayTrace -----------------------------
EXTENDS MArray, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES st, tid, l
vars == <<st, tid, l>>
T == Traces[tid].t
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = [i \in 1..Traces[tid].t[1].ns |-> None]
ObsOk(x, o) ==
  /\ \A i \in DOMAIN x : x[i].own =>
       /\ Len(o.s[i]) = Cardinality(DOMAIN x[i].el)
       /\ {e[1] : e \in Range(o.s[i])} = DOMAIN x[i].el
       /\ \A e \in Range(o.s[i]) : e[2] = x[i].el[e[1]]
  /\ o.live = Elements(x)
Next == \/ /\ l <= Len(T) /\ T[l].o.op = "large" /\ LargeOk(T[l].o.x, T[l].o.w, T[l].r)
           /\ l' = l + 1 /\ UNCHANGED <<st, tid>>
        \/ /\ l <= Len(T) /\ T[l].o.op # "large" /\ Legal(T[l].o, st) /\ st' = Apply(T[l].o, st) /\ ObsOk(st', T[l])
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
