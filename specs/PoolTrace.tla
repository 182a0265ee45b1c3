------------------------------ MODULE PoolTrace -----------------------------
EXTENDS Pool, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES st, tid, l
vars == <<st, tid, l>>
T == Traces[tid].t
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Empty
(* Seen: for each wrapper the pointers that are equal to its address, and its  *)
(* value read in every way and through the pointer. Pointers of wrappers that  *)
(* exist no more have been reset by their owner: nobody writes them.           *)
ObsOk(x, o) ==
  /\ Len(o.a) = Len(x.a) /\ \A i \in DOMAIN x.a : o.a[i] = <<<<x.a[i][1]>>, x.a[i][2]>>
  /\ Len(o.b) = Len(x.b) /\ \A i \in DOMAIN x.b : o.b[i] = <<<<x.b[i][1]>>, x.b[i][2]>>
  /\ o.stale = <<>> /\ o.live = Len(x.a) + Len(x.b)
Next == \/ /\ l <= Len(T) /\ Legal(T[l].o, st) /\ st' = Apply(T[l].o, st) /\ ObsOk(st', T[l])
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
