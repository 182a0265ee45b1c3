----------------------------- MODULE CSocketMC ------------------------------
(* The server closed by its environment: any outcome of any call, any peer.    *)
(* History variables record what a user of the library observes.               *)
EXTENDS CSocket, TLC
CONSTANTS NConn, Max, NChunk, NMsg, NL, NR, FailSetup
VARIABLES inb,     \* received so far, per connection
          outb,    \* delivered to each listener, per connection
          told,    \* statuses reported, per connection (0: the server)
          ncl,     \* closed listeners called, per connection
          nm,      \* messages left to send, per connection
          join     \* received when the listener was added, per connection
hist == <<inb, outb, told, ncl, nm, join>>
Ls == 1..(NL + NR)
vars == <<svars, hist>>
Cs == 1..NConn
Init == /\ SInit([addr |-> "h", port |-> 80, resolved |-> "r", max |-> Max, buf |-> 1])
        /\ inb = [c \in Cs |-> <<>>] /\ outb = [c \in Cs |-> [k \in Ls |-> <<>>]]
        /\ join = [c \in Cs |-> [k \in Ls |-> IF k <= NL THEN 0 ELSE 99]]
        /\ told = [c \in 0..NConn |-> <<>>] /\ ncl = [c \in Cs |-> 0] /\ nm = [c \in Cs |-> NMsg]
Oks == IF FailSetup THEN BOOLEAN ELSE {TRUE}
Setup == \/ \E ok \in Oks : Host("h", ok) \/ Create(TRUE, ok) \/ Option(ok) \/ Bind(TRUE, "r", 80, ok)
                            \/ Name("r", 80, ok) \/ Listen(ok)
         \/ \E ok \in BOOLEAN : CloseServer(ok)
         \/ Return
Accepting == \/ \E c \in Cs : (\A d \in 1..(c - 1) : cn[d].pc # "none") /\ Accept(c, "c" \o ToString(c), 5000 + c)
             \/ \E c \in Cs : \E ok \in Oks : NameConn(c, "s" \o ToString(c), 80, ok)
             \/ \E c \in Cs : \E ok \in BOOLEAN : RejectConn(c, ok) \/ CloseUnserved(c, ok)
             \/ FailSetup /\ \E c \in Cs : NoThread(c)
Dsc(c) == [sa |-> cn[c].sa, sp |-> cn[c].sp, ca |-> cn[c].ca, cp |-> cn[c].cp]
Tell == \/ /\ MainStatus(mn.owe, About(mn.about), IsActive(About(mn.about)))
           /\ told' = IF mn.about = "conn" THEN [told EXCEPT ![mn.c] = Append(@, mn.owe)]
                      ELSE [told EXCEPT ![0] = IF Len(@) < 4 THEN Append(@, mn.owe) ELSE @]
        \/ \E c \in Cs : \E st \in {cn[c].owe, "Send", "SendError"} :
             ConnStatus(c, c, st, Dsc(c), TRUE) /\ told' = [told EXCEPT ![c] = IF st \in {"Send", "Receive"} THEN @ ELSE Append(@, st)]
Quiet1(c) == \/ cn[c].late = 0 /\ NR > 0 /\ RegisterLate(c, c)
             \/ \E v \in BOOLEAN : LateCb(c, c, v)
             \/ Serve(c, c, NL, 1) \/ Served(c, c) \/ MsgRet(c, c)
             \/ \E ok \in BOOLEAN : CloseConn(c, c, ok)
             \/ \E k \in Ls : Delivered(c, c, k)
             \/ Fin(c, c)
             \/ \E n \in -1..Len(cn[c].rest) : SendCall(c, c, cn[c].rest, n) /\ n # 0
             \/ Len(inb[c]) <= NChunk /\ \E r \in {"eof", "err"} : Recv(c, c, r, <<>>)
Next == \/ (Setup \/ Accepting \/ \E c \in Cs : Quiet1(c)) /\ UNCHANGED hist
        \/ Tell /\ UNCHANGED <<inb, outb, ncl, nm, join>>
        \/ \E c \in Cs :
           \/ /\ Len(inb[c]) < NChunk /\ Recv(c, c, "data", <<Len(inb[c])>>)
              /\ inb' = [inb EXCEPT ![c] = Append(@, Len(inb[c]))] /\ UNCHANGED <<outb, told, ncl, nm, join>>
           \/ \E k \in Ls : /\ Deliver(c, c, k, cn[c].chunk)
                               /\ outb' = [outb EXCEPT ![c][k] = @ \o cn[c].chunk]
                               /\ UNCHANGED <<inb, told, ncl, nm, join>>
           \/ \E v \in BOOLEAN : ClosedCb(c, c, 1, v) /\ ncl' = [ncl EXCEPT ![c] = @ + 1]
                                 /\ UNCHANGED <<inb, outb, told, nm, join>>
           \/ nm[c] > 0 /\ (Msg(c, c, <<7, 8>>) \/ MsgDead(c, c)) /\ nm' = [nm EXCEPT ![c] = @ - 1]
              /\ UNCHANGED <<inb, outb, told, ncl, join>>
           \/ cn[c].nl < NL + NR /\ Register(c, c, "receive") /\ join' = [join EXCEPT ![c][cn[c].nl + 1] = Len(inb[c])]
              /\ UNCHANGED <<inb, outb, told, ncl, nm>>
        \/ mn.pc = "returned" /\ UNCHANGED vars
        \/ mn.pc = "up" /\ Quiet /\ (\A c \in Cs : cn[c].pc = "dead") /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ \A c \in Cs : WF_vars(Quiet1(c) /\ UNCHANGED hist)
(* --- what a user relies on --------------------------------------------------*)
Heard(c, k) == {Drop(inb[c], j) : j \in {i \in {join[c][k] - 1, join[c][k]} : i >= 0 /\ i <= Len(inb[c]) /\ (k <= NL => i = 0)}}
DeliveredPrefix == \A c \in Cs, k \in Ls : outb[c][k] # <<>> => \E s \in Heard(c, k) : Prefix(outb[c][k], s)
NoneLost == \A c \in Cs, k \in Ls : cn[c].pc \in {"closing", "closed"} /\ k <= cn[c].nl => outb[c][k] \in Heard(c, k)
Limit == Max > 0 => Cardinality({c \in Cs : cn[c].pc \in {"serving", "open", "got", "disp", "in", "closing", "closed"}}) <= Max
ClosedOnce == \A c \in Cs : ncl[c] <= 1 /\ (cn[c].pc = "dead" /\ cn[c].th # 0 => ncl[c] = 1)
OneEnd == \A c \in Cs : /\ Cardinality({i \in 1..Len(told[c]) : told[c][i] \in {"Close", "CloseError"}}) <= 1
                        /\ Len(told[c]) > 0 => told[c][1] = "Accept"
Setups == Len(told[0]) > 0 => told[0][1] \in {"HostnameError", "CreateError", "OptionError", "BindError",
                                              "ServerAddressError", "ListenError", "Listen"}
(* The server stops only after a failed step, having closed what it opened.    *)
ReturnAfterFailure == mn.pc = "returned" =>
   \/ told[0] \in {<<"HostnameError">>, <<"CreateError">>}
   \/ Len(told[0]) = 2 /\ told[0][1] \in {"OptionError", "BindError", "ServerAddressError", "ListenError"}
                       /\ told[0][2] \in {"Close", "CloseError"}
AllServed == <>(mn.pc = "returned" \/ \A c \in Cs : cn[c].pc = "dead")
=============================================================================
