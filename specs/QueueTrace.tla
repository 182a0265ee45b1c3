----------------------------- MODULE QueueTrace ----------------------------
(* Executions recorded from the real class, checked against Queue.             *)
EXTENDS Queue, TLC, Json, IOUtils
CONSTANT N
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES q, m, tid, l
vars == <<q, m, tid, l>>
Init == q = [i \in 1..N |-> <<>>] /\ m = [i \in 1..N |-> FALSE] /\ tid \in 1..Len(Traces) /\ l = 1
T == Traces[tid].t
Step == /\ l <= Len(T)
        /\ LET e == T[l] IN
             /\ e.threw => MayThrow(e.o) /\ e.f > 0
             /\ q' = IF e.threw THEN Thrown(e.o, q) ELSE Apply(e.o, q)
             /\ m' = IF ~e.threw THEN MultiAfter(e.o, q, m)
                     ELSE IF e.o.op = "copyctor" THEN [m EXCEPT ![e.o.i] = FALSE] ELSE m
             /\ MustNotAllocate(e.o, q, m) => e.alloc = 0
             /\ e.res = (IF e.threw THEN 0 ELSE Result(e.o, q))
             /\ e.cmp = (IF e.o.op = "cmp" /\ ~e.threw THEN <<Cmp(q[e.o.i], q[e.o.j])>> ELSE <<>>)
             /\ e.obs = [i \in 1..N |-> Proj(q'[i])]
        /\ l' = l + 1 /\ UNCHANGED tid
Done == l > Len(T) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
