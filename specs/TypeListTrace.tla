---------------------------- MODULE TypeListTrace ----------------------------
(* Results of the real templates, checked against TypeList.                    *)
EXTENDS TypeList, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid].t
Init == tid \in 1..Len(Traces) /\ l = 1
(* A collection of cells defined by a macro has the cells named in it, in their *)
(* order, which is also the order of visits.                                    *)
Good(e) == IF "coll" \in DOMAIN e THEN \A i \in DOMAIN e.coll : e.coll[i] = e.a ELSE Ok(e.n, e.a, e.b, e.o)
Next == \/ l <= Len(T) /\ Good(T[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
