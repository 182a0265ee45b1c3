---------------------------- MODULE CSocketTrace ----------------------------
(* Executions of the real server on a scripted network, recorded under a        *)
(* controlled schedule, are behaviours of CSocket.                              *)
EXTENDS CSocket, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
vars == <<svars, tid, l>>
T == Traces[tid].t
Init == /\ tid \in 1..Len(Traces) /\ l = 2
        /\ SInit([addr |-> Traces[tid].t[1].addr, port |-> Traces[tid].t[1].port,
                  resolved |-> Traces[tid].t[1].resolved, max |-> Traces[tid].t[1].max,
                  buf |-> Traces[tid].t[1].buf])
Desc(e) == [sa |-> e.sa, sp |-> e.sp, ca |-> e.ca, cp |-> e.cp]
Consume(e) ==
  CASE e.e = "host" -> e.th = 0 /\ Host(e.name, e.ok)
    [] e.e = "socket" -> e.th = 0 /\ Create(e.tcp, e.ok)
    [] e.e = "option" -> e.th = 0 /\ Option(e.ok)
    [] e.e = "bind" -> e.th = 0 /\ e.k = 0 /\ Bind(e.inet, e.addr, e.port, e.ok)
    [] e.e = "name" -> e.th = 0 /\ IF e.k = 0 THEN Name(e.addr, e.port, e.ok)
                                   ELSE NameConn(e.k, e.addr, e.port, e.ok)
    [] e.e = "listen" -> e.th = 0 /\ e.k = 0 /\ Listen(e.ok)
    [] e.e = "accept" -> e.th = 0 /\ IF e.c = 0 THEN AcceptFail ELSE Accept(e.c, e.ca, e.cp)
    [] e.e = "stop" -> e.th = 0 /\ Stop
    [] e.e = "stopped" -> e.th = 0 /\ Stopped
    [] e.e = "return" -> e.th = 0 /\ Return
    [] e.e = "on" -> IF e.th = 0 THEN MainStatus(e.st, Desc(e), e.act)
                     ELSE ConnStatus(e.k, e.th, e.st, Desc(e), e.act)
    [] e.e = "close" -> IF e.th # 0 THEN CloseConn(e.k, e.th, e.ok)
                        ELSE IF e.k = 0 THEN CloseServer(e.ok) ELSE RejectConn(e.k, e.ok) \/ CloseUnserved(e.k, e.ok)
    [] e.e = "nothread" -> e.th = 0 /\ NoThread(e.k)
    [] e.e = "serve" -> Serve(e.k, e.th, e.L, e.C)
    [] e.e = "served" -> Served(e.k, e.th)
    [] e.e = "recv" -> Recv(e.k, e.th, e.r, e.d)
    [] e.e = "deliver" -> Deliver(e.k, e.th, e.l, e.d)
    [] e.e = "delivered" -> Delivered(e.k, e.th, e.l)
    [] e.e = "register" -> IF e.kind = "late" THEN RegisterLate(e.k, e.th) ELSE Register(e.k, e.th, e.kind)
    [] e.e = "latecb" -> LateCb(e.k, e.th, e.v)
    [] e.e = "msg" -> Msg(e.k, e.th, e.d) \/ MsgDead(e.k, e.th)
    [] e.e = "msgret" -> MsgRet(e.k, e.th)
    [] e.e = "send" -> SendCall(e.k, e.th, e.d, e.n)
    [] e.e = "closedcb" -> ClosedCb(e.k, e.th, e.l, e.v)
    [] e.e = "fin" -> Fin(e.k, e.th)
    [] OTHER -> FALSE   \* sigpipe, badfd: never allowed
Next == \/ l <= Len(T) /\ Consume(T[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ mn.pc = "returned" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
