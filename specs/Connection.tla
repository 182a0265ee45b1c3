----------------------------- MODULE Connection -----------------------------
(* A connection between a peer (delivers received chunks and the end of the     *)
(* connection, one thread) and a server function (answers requests, another     *)
(* thread). One action per critical section of the implementation: the two      *)
(* sides share a receive mailbox and a send mailbox, each under its own lock,   *)
(* and the side that sees the other one gone frees the shared state.            *)
EXTENDS Integers, Sequences, SequencesExt

VARIABLES
  rpc,      \* peer: idle give wait send closewait closed
  buf,      \* peer: requests of the current chunk that are not answered yet
  out,      \* peer: reply being sent
  gone,     \* peer: saw that the server dropped the connection
  box,      \* receive mailbox: <<>> or <<request>>
  sbox,     \* send mailbox: <<>> or <<reply>>
  close,    \* the end of the connection was announced to the server
  rej,      \* the server will not answer any more
  freed,    \* the shared state is released
  spc,      \* server: run await handle reply ret noret over dropping gone
  req, rep, \* server: request being handled, its reply
  null      \* server: its handle is empty

cvars == <<rpc, buf, out, gone, box, sbox, close, rej, freed, spc, req, rep, null>>

Reject == <<82, 69, 74, 69, 67, 84>>

\* A chunk is cut at every delimiter; the empty text after the last delimiter is
\* not a request, any other unterminated text is.
RECURSIVE Split(_, _, _)
Split(c, d, acc) ==
  IF c = <<>> THEN IF acc = <<>> THEN <<>> ELSE <<acc>>
  ELSE IF Head(c) = d THEN <<acc>> \o Split(Tail(c), d, <<>>)
  ELSE Split(Tail(c), d, Append(acc, Head(c)))
\* The same by the positions of delimiters (ConnectionMC compares them).
Requests(c, d) ==
  LET P == SetToSortSeq({0, Len(c) + 1} \cup {i \in 1..Len(c) : c[i] = d}, <)
      all == [k \in 1..Len(P) - 1 |-> SubSeq(c, P[k] + 1, P[k + 1] - 1)]
  IN IF all[Len(all)] = <<>> THEN SubSeq(all, 1, Len(all) - 1) ELSE all

CInit == /\ rpc = "idle" /\ buf = <<>> /\ out = <<>> /\ gone = FALSE
         /\ box = <<>> /\ sbox = <<>> /\ close = FALSE /\ rej = FALSE /\ freed = FALSE
         /\ spc = "run" /\ req = <<>> /\ rep = <<>> /\ null = FALSE

server == <<spc, req, rep, null>>
-----------------------------------------------------------------------------
(* Peer *)
Receive(chunk, d) == /\ rpc = "idle"
                     /\ buf' = Requests(chunk, d) /\ rpc' = "give"
                     /\ UNCHANGED <<out, gone, box, sbox, close, rej, freed, server>>

Give == /\ rpc = "give" /\ buf # <<>>
        /\ IF gone THEN /\ out' = Reject /\ rpc' = "send" /\ UNCHANGED box
                   ELSE /\ box' = <<Head(buf)>> /\ rpc' = "wait" /\ UNCHANGED out
        /\ buf' = Tail(buf)
        /\ UNCHANGED <<gone, sbox, close, rej, freed, server>>

Take == /\ rpc = "wait" /\ (sbox # <<>> \/ rej)
        /\ out' = IF sbox # <<>> THEN sbox[1] ELSE Reject
        /\ gone' = rej /\ sbox' = <<>> /\ rpc' = "send"
        /\ UNCHANGED <<buf, box, close, rej, freed, server>>

Send(m, d) == /\ rpc = "send" /\ m = Append(out, d)
              /\ rpc' = "give" /\ out' = <<>>
              /\ freed' = gone
              /\ UNCHANGED <<buf, gone, box, sbox, close, rej, server>>

Received == /\ rpc = "give" /\ buf = <<>> /\ rpc' = "idle"
            /\ UNCHANGED <<buf, out, gone, box, sbox, close, rej, freed, server>>

Close == /\ rpc = "idle" /\ rpc' = "closing"
         /\ UNCHANGED <<buf, out, gone, box, sbox, close, rej, freed, server>>
Announce == /\ rpc = "closing"
            /\ close' = (IF gone THEN close ELSE TRUE) /\ rpc' = "closewait"
            /\ UNCHANGED <<buf, out, gone, box, sbox, rej, freed, server>>
Closed == /\ rpc = "closewait" /\ (gone \/ rej)
          /\ rpc' = "closed" /\ freed' = TRUE
          /\ UNCHANGED <<buf, out, gone, box, sbox, close, rej, server>>
-----------------------------------------------------------------------------
(* Server *)
peer == <<rpc, buf, out, gone, close, freed>>

Answer == /\ spc = "run"
          /\ spc' = IF null THEN "noret" ELSE "await"
          /\ UNCHANGED <<peer, box, sbox, rej, req, rep, null>>
Pick == /\ spc = "await" /\ (box # <<>> \/ close)
        /\ IF close THEN spc' = "ending" /\ UNCHANGED req
                    ELSE spc' = "handle" /\ req' = box[1]
        /\ box' = <<>>
        /\ UNCHANGED <<peer, sbox, rej, rep, null>>
End == /\ spc = "ending" /\ rej' = TRUE /\ spc' = "noret" /\ null' = TRUE
       /\ UNCHANGED <<peer, box, sbox, req, rep>>
Handle(q, p) == /\ spc = "handle" /\ q = req /\ rep' = p /\ spc' = "reply"
                /\ UNCHANGED <<peer, box, sbox, rej, req, null>>
Reply == /\ spc = "reply" /\ sbox' = <<rep>> /\ spc' = "ret"
         /\ UNCHANGED <<peer, box, rej, req, rep, null>>
Answered(r) == /\ spc = (IF r THEN "ret" ELSE "noret") /\ spc' = "run"
               /\ UNCHANGED <<peer, box, sbox, rej, req, rep, null>>
Drop == /\ spc = "run" /\ spc' = "dropping"
        /\ UNCHANGED <<peer, box, sbox, rej, req, rep, null>>
Dropping == /\ spc = "dropping" /\ ~null /\ rej' = TRUE /\ null' = TRUE
            /\ UNCHANGED <<peer, box, sbox, spc, req, rep>>
Dropped == /\ spc = "dropping" /\ null /\ spc' = "gone"
           /\ UNCHANGED <<peer, box, sbox, rej, req, rep, null>>

\* Steps without an observable event of their own.
Silent == Give \/ Take \/ Announce \/ Pick \/ End \/ Reply \/ Dropping
=============================================================================
