---------------------------- MODULE ConnectionMC ----------------------------
(* All interleavings of a bounded connection, with the properties.              *)
EXTENDS Connection, TLC, Json
CONSTANTS Chunks, MaxChunks, MaxAnswers, Delim
VARIABLES reqs,     \* all requests received
          outs,     \* all messages sent, without the delimiter
          handled,  \* requests passed to the handler
          nch, nans
vars == <<cvars, reqs, outs, handled, nch, nans>>
aux == <<reqs, outs, handled, nch, nans>>

ChunksSmall == {<<97>>, <<97, 36, 98>>}
ChunksLarge == {<<97, 36, 98>>, <<97>>, <<36, 36>>, <<98, 36>>}
\* Both definitions of the requests of a chunk agree.
ASSUME \A n \in 0..6 : \A c \in [1..n -> {97, Delim}] : Requests(c, Delim) = Split(c, Delim, <<>>)
Resp(q) == <<114>> \o q
Init == CInit /\ reqs = <<>> /\ outs = <<>> /\ handled = <<>> /\ nch = 0 /\ nans = 0

PReceive == \E c \in Chunks : /\ nch < MaxChunks /\ Receive(c, Delim)
                              /\ reqs' = reqs \o Requests(c, Delim) /\ nch' = nch + 1
                              /\ UNCHANGED <<outs, handled, nans>>
PSend == Send(Append(out, Delim), Delim) /\ outs' = Append(outs, out) /\ UNCHANGED <<reqs, handled, nch, nans>>
Peer == PReceive \/ PSend \/ ((Give \/ Take \/ Received \/ Close \/ Announce \/ Closed) /\ UNCHANGED aux)
SAnswer == nans < MaxAnswers /\ Answer /\ nans' = nans + 1 /\ UNCHANGED <<reqs, outs, handled, nch>>
SHandle == Handle(req, Resp(req)) /\ handled' = Append(handled, req) /\ UNCHANGED <<reqs, outs, nch, nans>>
Server == SAnswer \/ SHandle \/ ((Pick \/ End \/ Reply \/ Answered(TRUE) \/ Answered(FALSE) \/ Drop
                                  \/ Dropping \/ Dropped) /\ UNCHANGED aux)
Terminated == rpc = "closed" /\ spc = "gone"
Next == Peer \/ Server \/ (Terminated /\ UNCHANGED vars)
\* The server either keeps answering or drops the connection; both sides run.
Spec == Init /\ [][Next]_vars /\ WF_vars(Peer) /\ WF_vars(Server)

MayFree == spc \in {"noret", "run", "dropping", "gone"} /\ null
\* Nobody uses the shared state after it was freed.
NoUseAfterFree == freed => MayFree
\* Replies: one per request, in order, the handler's for the requests that were
\* handled and the rejection for the others.
Expected == [i \in 1..Len(reqs) |-> IF i <= Len(handled) THEN Resp(handled[i]) ELSE Reject]
RepliesInOrder == /\ IsPrefix(handled, reqs)
                  /\ Len(outs) <= Len(reqs)
                  /\ \A i \in 1..Len(outs) : outs[i] = Expected[i]
OneReplyEach == rpc \in {"idle", "closing", "closewait", "closed"} => Len(outs) = Len(reqs)
RejectedStays == \A i, j \in 1..Len(outs) : i < j /\ i > Len(handled) => outs[j] = Reject
\* After the end of the connection an answer call fails without the handler.
NoHandlerAfterClose == rpc \in {"closing", "closewait", "closed"} => spc \notin {"handle", "reply"}
FalseOnlyOnClose == spc = "noret" => close
\* Nothing hangs.
ChunkIsAnswered == (rpc = "give") ~> (rpc = "idle")
CloseCompletes == (rpc = "closing") ~> (rpc = "closed")
=============================================================================
