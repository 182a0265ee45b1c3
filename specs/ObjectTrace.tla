----------------------------- MODULE ObjectTrace ----------------------------
EXTENDS Object, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES st, tid, l
vars == <<st, tid, l>>
T == Traces[tid].t
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Start(T[1].kind, T[1].nw, T[1].ns)
ObsOk(s, o) ==
  /\ \A k \in 1..(Len(s.w) + Len(s.x)) : o.x[k] = Seen(s, k)
  /\ s.kind = "dynamic" => o.live = [k \in 1..Len(s.h) |-> s.h[k]]
  /\ o.same
Next == \/ /\ l <= Len(T) /\ Legal(T[l].o, st) /\ st' = Apply(T[l].o, st) /\ ObsOk(st', T[l])
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
