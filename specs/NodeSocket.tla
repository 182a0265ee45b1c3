----------------------------- MODULE NodeSocket -----------------------------
(* The Node.js addon (lib/Socket/NodeJSSocket): connections between JavaScript *)
(* and a server written in C++. A connection that has been started has the     *)
(* listeners its server registered; exp is what has to happen next: calls of   *)
(* listeners, each of which may send messages of the server. late: how many    *)
(* listeners of each kind the first call of a receive listener registers, they *)
(* follow the others and are not called for the data being received.           *)
EXTENDS Integers, Sequences, FiniteSets
New == [s |-> "none", nr |-> 0, nc |-> 0, late |-> 0]
Call(k, c, l, b, e) == [k |-> k, c |-> c, l |-> l, b |-> b, err |-> e]
Recvs(c, n, b) == [l \in 1..n |-> Call("recv", c, l, b, FALSE)]
Closes(c, n, e) == [l \in 1..n |-> Call("closed", c, l, <<>>, e)]
TypeErr(c) == <<Call("error", c, 0, <<>>, FALSE)>>
Grown(x) == [x EXCEPT !.nr = @ + x.late, !.nc = @ + x.late, !.late = 0]
(* What the operation o makes of the connections, and the calls it leads to.   *)
Apply(o, cs) ==
  CASE o.op = "connect"    -> [cs |-> [cs EXCEPT ![o.c] = [New EXCEPT !.s = "open"]], exp |-> <<>>]
    [] o.op = "badconnect" -> [cs |-> cs, exp |-> TypeErr(o.c)]
    [] o.op = "start"      -> [cs |-> [cs EXCEPT ![o.c] = [s |-> "on", nr |-> o.nr, nc |-> o.nc, late |-> o.late]],
                               exp |-> <<Call("server", o.c, 0, <<>>, FALSE)>>]
    [] o.op = "data"       -> [cs |-> IF cs[o.c].nr = 0 THEN cs ELSE [cs EXCEPT ![o.c] = Grown(@)], exp |-> Recvs(o.c, cs[o.c].nr, o.b)]
    [] o.op = "baddata"    -> [cs |-> cs, exp |-> IF cs[o.c].nr > 0 THEN TypeErr(o.c) ELSE <<>>]
    [] o.op = "close"      -> [cs |-> [cs EXCEPT ![o.c].s = "closed"], exp |-> Closes(o.c, cs[o.c].nc, o.err)]
    [] o.op = "badclose"   -> [cs |-> cs, exp |-> TypeErr(o.c)]
    [] o.op = "gc"         -> [cs |-> cs, exp |-> <<>>]
Legal(o, cs) ==
  CASE o.op = "connect" -> cs[o.c].s \in {"none", "closed"}
    [] o.op = "badconnect" -> TRUE
    [] o.op = "start" -> cs[o.c].s = "open"
    [] o.op \in {"data", "baddata", "close", "badclose"} -> cs[o.c].s = "on"
    [] OTHER -> TRUE
=============================================================================
