---------------------------- MODULE UtilityTrace ----------------------------
EXTENDS Utility, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid].t
Init == tid \in 1..Len(Traces) /\ l = 1
Next == \/ l <= Len(T) /\ Ok(T[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
