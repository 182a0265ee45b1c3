--------------------------- MODULE ConnectionTrace --------------------------
(* Executions of the real connection, recorded under a controlled schedule.     *)
EXTENDS Connection, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
vars == <<cvars, tid, l>>
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Init == CInit /\ tid \in 1..Len(Traces) /\ l = 1
T == Traces[tid].t
D == Traces[tid].d
Consume(e) ==
  CASE e.e = "recv" -> Receive(e.c, D)
    [] e.e = "recvd" -> Received
    [] e.e = "send" -> Send(e.m, D)
    [] e.e = "close" -> Close
    [] e.e = "closed" -> Closed
    [] e.e = "start" -> UNCHANGED cvars
    [] e.e = "answer" -> Answer
    [] e.e = "handle" -> Handle(e.q, e.p)
    [] e.e = "answered" -> Answered(e.r)
    [] e.e = "drop" -> Drop
    [] e.e = "dropped" -> Dropped
Step == \/ l <= Len(T) /\ Consume(T[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l <= Len(T) /\ Silent /\ UNCHANGED <<tid, l>>
Spec == Init /\ [][Step]_vars
Reach == TLCSet(tid, IF l > TLCGet(tid) THEN l ELSE TLCGet(tid))
Accepted == \A i \in 1..Len(Traces) :
   TLCGet(i) = Len(Traces[i].t) + 1 \/ (PrintT(<<"REJECTED", i, TLCGet(i)>>) /\ FALSE)
NoUseAfterFree == freed => (null /\ spc \in {"noret", "run", "dropping", "gone"})
=============================================================================
