------------------------------ MODULE CSocket -------------------------------
(* The network server of lib/Socket/CSocket: one accepting thread and one      *)
(* thread per connection. An action is one interaction with the outside: a     *)
(* socket call with its outcome, a status reported to the user's handler, the  *)
(* invocation of a listener. The order of the interactions of one thread, the  *)
(* data and the addresses they carry and the connection limit are specified;   *)
(* the threads interleave freely.                                              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES par,   \* arguments of startServer: addr, port, resolved, max (0: none), buf
          mn,    \* accepting thread
          cn     \* connection number -> connection
svars == <<par, mn, cn>>
ConnIds == 1..9
NoConn == [pc |-> "none", th |-> 0, sa |-> "", sp |-> 0, ca |-> "", cp |-> 0, nl |-> 0, nc |-> 0,
           need |-> 0, cur |-> 0, chunk |-> <<>>, sub |-> "", rest |-> <<>>, bad |-> "no", owe |-> "", ok |-> TRUE, late |-> 0, lrun |-> 0]
SInit(p) == /\ par = p
            /\ mn = [pc |-> "start", owe |-> "", about |-> "pre", sa |-> "", sp |-> 0, c |-> 0]
            /\ cn = [c \in ConnIds |-> NoConn]
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* --- the accepting thread --------------------------------------------------*)
M(pc, owe, about) == mn' = [mn EXCEPT !.pc = pc, !.owe = owe, !.about = about]
Outcome(ok, pc, status, failpc, about) ==
  IF ok THEN M(pc, "", about) ELSE M(failpc, status, about)
Quiet == mn.owe = ""
Host(name, ok) == /\ mn.pc = "start" /\ par.addr # "" /\ name = par.addr
                  /\ Outcome(ok, "host", "HostnameError", "end", "pre") /\ UNCHANGED <<par, cn>>
Create(tcp, ok) == /\ tcp /\ mn.pc = IF par.addr = "" THEN "start" ELSE "host"
                   /\ Outcome(ok, "socket", "CreateError", "end", "pre") /\ UNCHANGED <<par, cn>>
Option(ok) == /\ mn.pc = "socket"
              /\ Outcome(ok, "option", "OptionError", "toclose", "pre") /\ UNCHANGED <<par, cn>>
Bind(inet, addr, port, ok) == /\ mn.pc = "option" /\ inet /\ addr = par.resolved /\ port = par.port
                        /\ Outcome(ok, "bound", "BindError", "toclose", "pre") /\ UNCHANGED <<par, cn>>
Name(sa, sp, ok) == /\ mn.pc = "bound"
                    /\ mn' = [mn EXCEPT !.pc = IF ok THEN "named" ELSE "toclose",
                                        !.owe = IF ok THEN "" ELSE "ServerAddressError",
                                        !.about = IF ok THEN "server" ELSE "pre", !.sa = sa, !.sp = sp]
                    /\ UNCHANGED <<par, cn>>
Listen(ok) == /\ mn.pc = "named"
              /\ M(IF ok THEN "up" ELSE "toclose", IF ok THEN "Listen" ELSE "ListenError", "server")
              /\ UNCHANGED <<par, cn>>
CloseServer(ok) == /\ mn.pc = "toclose" /\ Quiet
                   /\ M("end", IF ok THEN "Close" ELSE "CloseError", mn.about) /\ UNCHANGED <<par, cn>>
Return == mn.pc = "end" /\ Quiet /\ M("returned", "", "pre") /\ UNCHANGED <<par, cn>>

Alive(c) == cn[c].pc \notin {"none", "dead"}
Active == {c \in ConnIds : Alive(c)}
AcceptFail == mn.pc = "up" /\ Quiet /\ M("up", "AcceptError", "server") /\ UNCHANGED <<par, cn>>
Accept(c, ca, cp) ==
  /\ mn.pc = "up" /\ Quiet /\ cn[c].pc = "none"
  /\ par.max > 0 => Cardinality(Active) < par.max
  /\ mn' = [mn EXCEPT !.pc = "accepted", !.c = c]
  /\ cn' = [cn EXCEPT ![c].pc = "accepted", ![c].ca = ca, ![c].cp = cp]
  /\ UNCHANGED par
NameConn(c, sa, sp, ok) ==
  /\ mn.pc = "accepted" /\ mn.c = c
  /\ IF ok THEN M("launch", "Accept", "conn") ELSE M("reject", "ServerAddressError", "server")
  /\ cn' = [cn EXCEPT ![c].sa = sa, ![c].sp = sp]
  /\ UNCHANGED par
RejectConn(c, ok) ==
  /\ mn.pc = "reject" /\ Quiet /\ mn.c = c
  /\ M("up", IF ok THEN "Close" ELSE "CloseError", "server")
  /\ cn' = [cn EXCEPT ![c].pc = "dead"] /\ UNCHANGED par
(* There is no thread for an accepted connection: it is closed, the others and *)
(* the server go on.                                                           *)
NoThread(c) ==
  /\ mn.pc = "up" /\ Quiet /\ mn.c = c /\ cn[c].pc = "ready"
  /\ M("unserved", "AcceptError", "conn")
  /\ cn' = [cn EXCEPT ![c].pc = "unserved"] /\ UNCHANGED par
CloseUnserved(c, ok) ==
  /\ mn.pc = "unserved" /\ Quiet /\ mn.c = c
  /\ mn' = [mn EXCEPT !.pc = "up", !.owe = IF ok THEN "Close" ELSE "CloseError", !.about = "conn"]
  /\ cn' = [cn EXCEPT ![c].pc = "dead"] /\ UNCHANGED par
Stop == mn.pc = "up" /\ Quiet /\ M("up", "AcceptError", "server") /\ UNCHANGED <<par, cn>>
Stopped == mn.pc = "up" /\ Quiet /\ Active = {} /\ M("returned", "", "pre") /\ UNCHANGED <<par, cn>>
(* What the handler is told about the connection.                              *)
About(w) == CASE w = "pre" -> [sa |-> par.addr, sp |-> par.port, ca |-> "", cp |-> 0]
              [] w = "server" -> [sa |-> mn.sa, sp |-> mn.sp, ca |-> "", cp |-> 0]
              [] w = "conn" -> [sa |-> cn[mn.c].sa, sp |-> cn[mn.c].sp, ca |-> cn[mn.c].ca, cp |-> cn[mn.c].cp]
IsActive(d) == d.sp > 0 /\ d.cp > 0
MainStatus(st, d, act) ==
  /\ mn.owe # "" /\ st = mn.owe /\ d = About(mn.about) /\ act = IsActive(d)
  /\ mn' = [mn EXCEPT !.owe = "", !.pc = IF @ = "launch" THEN "up" ELSE @,
                      !.about = IF @ = "conn" THEN "server" ELSE @]
  /\ cn' = IF mn.pc = "launch" THEN [cn EXCEPT ![mn.c].pc = "ready"] ELSE cn
  /\ UNCHANGED par

(* --- the thread of connection c --------------------------------------------*)
On(c, th) == c \in ConnIds /\ th # 0 /\ cn[c].th = th
Keep == UNCHANGED <<par, mn>>
Serve(c, th, nl, nc) ==
  /\ th # 0 /\ cn[c].pc = "ready" /\ \A o \in ConnIds : cn[o].th # th
  /\ cn' = [cn EXCEPT ![c].pc = "serving", ![c].th = th, ![c].nl = nl, ![c].nc = nc] /\ Keep
(* The user's code sends a message, from the set-up or from a listener.        *)
Msg(c, th, d) ==
  /\ On(c, th) /\ cn[c].pc \in {"serving", "in"} /\ cn[c].sub = "" /\ cn[c].owe = ""
  /\ cn' = [cn EXCEPT ![c].sub = IF cn[c].bad = "no" THEN "msg" ELSE "badmsg", ![c].rest = d] /\ Keep
(* A closed listener may try it, too: nothing is sent, which may be reported.  *)
MsgDead(c, th) == /\ On(c, th) /\ cn[c].pc = "closed" /\ cn[c].cur > 0 /\ cn[c].sub = "" /\ cn[c].owe = ""
                  /\ cn' = [cn EXCEPT ![c].sub = "dead"] /\ Keep
(* One send call offers what is left of the message; n bytes went out.         *)
SendCall(c, th, d, n) ==
  /\ On(c, th) /\ cn[c].sub \in {"msg", "badmsg"} /\ cn[c].owe = "" /\ Prefix(d, cn[c].rest)
  /\ d = <<>> => cn[c].rest = <<>>
  /\ n <= Len(d)
  /\ cn' = IF n < 0 THEN [cn EXCEPT ![c].owe = "SendError", ![c].sub = "failed"]
           ELSE [cn EXCEPT ![c].rest = Drop(@, n)]
  /\ Keep
(* The message ended: all of it was sent, or sending failed. After a failure a *)
(* further message may be dropped at once.                                     *)
MsgRet(c, th) ==
  /\ On(c, th) /\ cn[c].sub \in {"done", "badmsg", "dead", "deadtold"} /\ cn[c].owe = ""
  /\ cn' = [cn EXCEPT ![c].sub = "", ![c].rest = <<>>] /\ Keep
Served(c, th) ==
  /\ On(c, th) /\ cn[c].pc = "serving" /\ cn[c].sub = "" /\ cn' = [cn EXCEPT ![c].pc = "open"] /\ Keep
(* A connection on which sending failed takes nothing more from the peer, but  *)
(* for one chunk when the failure was noticed before the first one.            *)
CanReceive(c) == /\ cn[c].owe = ""
                 /\ \/ cn[c].pc = "open" /\ cn[c].bad \in {"no", "early"}
                    \/ cn[c].pc = "disp" /\ cn[c].cur >= cn[c].need /\ cn[c].bad = "no"
Recv(c, th, r, d) ==
  /\ On(c, th) /\ CanReceive(c)
  /\ cn' = CASE r = "data" -> [cn EXCEPT ![c].pc = "got", ![c].chunk = d, ![c].owe = "Receive", ![c].cur = 0, ![c].need = cn[c].nl,
                                         ![c].bad = IF @ = "early" THEN "late" ELSE @]
             [] r = "eof" -> [cn EXCEPT ![c].pc = "closing", ![c].ok = TRUE]
             [] r = "err" -> [cn EXCEPT ![c].pc = "closing", ![c].ok = FALSE, ![c].owe = "ReceiveError"]
  /\ r = "data" => d # <<>> /\ Len(d) <= par.buf
  /\ Keep
(* Every listener gets exactly the chunk, in the order of registration.        *)
Deliver(c, th, k, d) ==
  /\ On(c, th) /\ cn[c].pc = "disp" /\ k = cn[c].cur + 1 /\ k <= cn[c].nl /\ d = cn[c].chunk
  /\ cn' = [cn EXCEPT ![c].pc = "in", ![c].cur = k] /\ Keep
Delivered(c, th, k) ==
  /\ On(c, th) /\ cn[c].pc = "in" /\ k = cn[c].cur /\ cn[c].sub = "" /\ cn[c].owe = ""
  /\ cn' = [cn EXCEPT ![c].pc = "disp"] /\ Keep
(* A listener may add another one: it gets everything that is received later,  *)
(* maybe the present chunk, too.                                               *)
Register(c, th, kind) ==
  /\ On(c, th) /\ cn[c].pc = "in" /\ cn[c].sub = ""
  /\ cn' = IF kind = "receive" THEN [cn EXCEPT ![c].nl = @ + 1] ELSE [cn EXCEPT ![c].nc = @ + 1]
  /\ Keep
CloseConn(c, th, ok) ==
  /\ On(c, th) /\ cn[c].owe = ""
  /\ \/ cn[c].pc = "closing"
     \/ cn[c].pc = "disp" /\ cn[c].cur >= cn[c].need /\ cn[c].bad # "no"
     \/ cn[c].pc = "open" /\ cn[c].bad # "no"
  /\ cn' = [cn EXCEPT ![c].ok = ok /\ cn[c].pc = "closing" /\ cn[c].ok, ![c].cur = 0,
                      ![c].pc = "closed", ![c].owe = IF ok THEN "Close" ELSE "CloseError"]
  /\ Keep
ClosedCb(c, th, k, v) ==
  /\ On(c, th) /\ cn[c].pc = "closed" /\ cn[c].owe = "" /\ cn[c].sub = "" /\ k = cn[c].cur + 1 /\ k <= cn[c].nc
  /\ v = cn[c].ok
  /\ cn' = [cn EXCEPT ![c].cur = k] /\ Keep
(* A closed listener may add another one: it is called now or never.           *)
RegisterLate(c, th) ==
  /\ On(c, th) /\ cn[c].pc = "closed" /\ cn[c].owe = "" /\ cn[c].cur > 0
  /\ cn' = [cn EXCEPT ![c].late = @ + 1] /\ Keep
LateCb(c, th, v) ==
  /\ On(c, th) /\ cn[c].pc \in {"closed", "dead"} /\ cn[c].cur = cn[c].nc /\ cn[c].lrun < cn[c].late /\ v = cn[c].ok
  /\ cn' = [cn EXCEPT ![c].lrun = @ + 1] /\ Keep
Fin(c, th) == /\ On(c, th) /\ cn[c].pc = "closed" /\ cn[c].owe = "" /\ cn[c].sub = "" /\ cn[c].cur = cn[c].nc
              /\ cn' = [cn EXCEPT ![c].pc = "dead"] /\ Keep
ConnStatus(c, th, st, d, act) ==
  /\ On(c, th)
  /\ d = [sa |-> cn[c].sa, sp |-> cn[c].sp, ca |-> cn[c].ca, cp |-> cn[c].cp] /\ act = IsActive(d)
  /\ \/ /\ cn[c].owe = st /\ cn[c].owe # ""
        /\ cn' = [cn EXCEPT ![c].owe = "", ![c].pc = IF @ = "got" THEN "disp" ELSE @,
                            ![c].sub = IF @ = "failed" THEN "done" ELSE @,
                            ![c].bad = IF cn[c].sub = "failed" /\ @ = "no"
                                       THEN IF cn[c].pc = "serving" THEN "early" ELSE "late" ELSE @]
     \/ /\ st = "Send" /\ cn[c].owe = "" /\ cn[c].sub \in {"msg", "badmsg"} /\ cn[c].rest = <<>>
        /\ cn' = [cn EXCEPT ![c].sub = "done"]
     \/ st = "SendError" /\ cn[c].sub = "dead" /\ cn' = [cn EXCEPT ![c].sub = "deadtold"]
  /\ Keep
=============================================================================
