-------------------------------- MODULE Diag ---------------------------------
(* Containers of diagnostics (bcl/Diagnostic.h). Texts are sequences of byte    *)
(* codes, numbers are given by their decimal digits. A container has a kind,    *)
(* the texts of its diagnostics in the order of insertion, and the number of    *)
(* insertions that failed.                                                      *)
EXTENDS Integers, Sequences
New(kind) == [kind |-> kind, items |-> <<>>, bad |-> 0]
(* The description: %s, %d and %c take the text of the next argument.           *)
RECURSIVE Format(_, _)
Format(f, args) ==
  IF f = <<>> THEN <<>>
  ELSE IF Head(f) # 37 THEN <<Head(f)>> \o Format(Tail(f), args)
  ELSE IF f[2] = 37 THEN <<37>> \o Format(Tail(Tail(f)), args)
  ELSE args[1] \o Format(Tail(Tail(f)), Tail(args))
(* <Kind> C<Code>(<Pos>): <description>                                          *)
Text(kind, code, pos, descr) == kind \o <<32, 67>> \o code \o <<40>> \o pos \o <<41, 58, 32>> \o descr
(* "fault": formatting fails from the code-th call on, so the insertion of       *)
(* "text and 9" fails, unless it takes fewer calls.                             *)
FaultText == <<116, 101, 120, 116, 32, 97, 110, 100, 32, 57>>
Faulted(o, st, ok) ==
  IF ok THEN [st EXCEPT ![o.i].items = Append(@, Text(st[o.i].kind, <<55>>, <<56>>, FaultText))]
  ELSE [st EXCEPT ![o.i].bad = @ + 1]
Apply(o, st) ==
  CASE o.op = "new"    -> [st EXCEPT ![o.i] = New(o.kind)]
    [] o.op = "insert" -> [st EXCEPT ![o.i].items = Append(@, Text(st[o.i].kind, o.code, o.pos, Format(o.fmt, o.args)))]
    [] o.op = "fail"   -> [st EXCEPT ![o.i].bad = @ + 1]
    [] o.op = "clear"  -> [st EXCEPT ![o.i] = New(@.kind)]
    [] o.op = "swap"   -> [st EXCEPT ![o.i] = st[o.j], ![o.j] = st[o.i]]
    [] o.op = "json"   -> IF st[o.i].kind # st[o.j].kind /\ st[o.j].items # <<>> THEN st
                          ELSE [st EXCEPT ![o.i].items = @ \o st[o.j].items]
Result(o, st) ==
  CASE o.op = "insert" -> TRUE
    [] o.op = "fail"   -> FALSE
    [] o.op = "json"   -> st[o.i].kind = st[o.j].kind \/ st[o.j].items = <<>>
    [] OTHER           -> 0
=============================================================================
