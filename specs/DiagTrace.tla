------------------------------ MODULE DiagTrace -------------------------------
EXTENDS Diag, TLC, Json, IOUtils
CONSTANTS N
J == INSTANCE JsonText
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES st, tid, l
T == Traces[tid].t
E == T[l]
vars == <<st, tid, l>>
Init == st = [i \in 1..N |-> New(<<101>>)] /\ tid \in 1..Len(Traces) /\ l = 1
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Next == \/ /\ l <= Len(T)
           /\ IF E.o.op = "fault" THEN E.r \in BOOLEAN /\ (E.o.code = <<49>> => ~E.r) /\ st' = Faulted(E.o, st, E.r)
              ELSE st' = Apply(E.o, st) /\ E.r = Result(E.o, st)
           \* the JSON text means the sequence of the diagnostics
           /\ E.o.op = "json" =>
                LET p == J!Read([k |-> "vec", e |-> [k |-> "str"]], J!Tokens(E.text)) IN
                p.r = "ok" /\ p.v = st[E.o.j].items
           /\ \A i \in 1..N : /\ E.d[i].kind = st'[i].kind
                              /\ E.d[i].items = st'[i].items /\ E.d[i].rev = Reverse(st'[i].items)
                              /\ E.d[i].size = Len(st'[i].items) /\ E.d[i].empty = (st'[i].items = <<>>)
                              /\ E.d[i].bad = st'[i].bad
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
