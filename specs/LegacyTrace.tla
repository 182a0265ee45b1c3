----------------------------- MODULE LegacyTrace -----------------------------
(* Results of the legacy part, checked against Legacy. The first event of a trace *)
(* describes the applications.                                                     *)
EXTENDS Legacy, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid].t
Init == tid \in 1..Len(Traces) /\ l = 2
Next == \/ l <= Len(T) /\ Ok(T[1], T[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
