-------------------------- MODULE NodeSocketTrace ---------------------------
(* Events of the real addon: operations of the driver ("op"), calls of the     *)
(* server's listeners, messages leaving the server ("send") and arriving in    *)
(* JavaScript ("sent"), collected connections ("gone").                        *)
EXTENDS NodeSocket, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cs, exp, out, alive, tid, l
vars == <<cs, exp, out, alive, tid, l>>
T == Traces[tid].t
E == T[l]
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ cs = [c \in 1..3 |-> New] /\ exp = <<>> /\ out = <<>> /\ alive = {}
Step(k) == l <= Len(T) /\ E.k = k /\ l' = l + 1 /\ UNCHANGED tid
(* id: a number of its own for every connection that has been made.            *)
Do == /\ Step("op") /\ exp = <<>> /\ out = <<>> /\ Legal(E, cs)
      /\ LET r == Apply(E, cs) IN cs' = r.cs /\ exp' = r.exp
      /\ alive' = IF E.op = "connect" THEN alive \cup {E.id}
                  ELSE IF E.op = "close" THEN alive \ {E.id} ELSE alive
      /\ UNCHANGED out
Called == /\ l <= Len(T) /\ E.k \in {"recv", "closed", "error", "server"} /\ Step(E.k)
          /\ exp # <<>> /\ out = <<>>
          /\ LET h == Head(exp) IN /\ h.k = E.k /\ h.c = E.c /\ h.l = E.l /\ h.b = E.b /\ h.err = E.err
          /\ exp' = Tail(exp) /\ UNCHANGED <<cs, out, alive>>
Send == Step("send") /\ out = <<>> /\ out' = <<[c |-> E.c, b |-> E.b]>> /\ UNCHANGED <<cs, exp, alive>>
Sent == Step("sent") /\ out = <<[c |-> E.c, b |-> E.b]>> /\ out' = <<>> /\ UNCHANGED <<cs, exp, alive>>
(* After a collection: the connections that are still there, and those whose   *)
(* functions are.                                                              *)
There == Step("there") /\ exp = <<>> /\ {E.ids[k] : k \in DOMAIN E.ids} = alive
         /\ {E.fns[k] : k \in DOMAIN E.fns} = alive /\ UNCHANGED <<cs, exp, out, alive>>
End == l > Len(T) /\ exp = <<>> /\ out = <<>> /\ UNCHANGED vars
Next == Do \/ Called \/ Send \/ Sent \/ There \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
