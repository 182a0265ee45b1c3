---------------------------- MODULE StaticMapTrace ----------------------------
(* Executions of the real static maps, checked against StaticMap. The first event *)
(* of a trace describes the maps.                                                  *)
EXTENDS StaticMap, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES st, tid, l
vars == <<st, tid, l>>
T == Traces[tid].t
W == T[1]
E == T[l]
Init == tid \in 1..Len(Traces) /\ l = 2 /\ st = Start(W)
ObsOk(x) ==
  /\ \A i \in DOMAIN W.maps :
       /\ Visited(W, i, x.m[i], E.d[i].get)      \* value<>() for every key
       /\ Visited(W, i, x.m[i], E.d[i].cget)     \* operator[] const
       /\ Visited(W, i, x.m[i], E.d[i].each)     \* for_each
       /\ Visited(W, i, x.m[i], E.d[i].ceach)    \* for_each const
       /\ VisitedKeys(W, i, E.d[i].keys)         \* for_each_key
       /\ W.ordered => E.d[i].empty = (W.maps[i] = <<>>)
  /\ Range(E.live) = x.live /\ Len(E.live) = Cardinality(x.live)
Next == \/ /\ l <= Len(T)
           /\ Legal(W, E.o, st)
           /\ st' = Apply(W, E.o, st)
           /\ ObsOk(st')
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
