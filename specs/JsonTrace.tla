----------------------------- MODULE JsonTrace ------------------------------
(* Records of the real parser and unparser.                                      *)
EXTENDS JsonText, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l
T == Traces[tid].t
vars == <<tid, l>>
RECURSIVE Norm(_, _), WithDefaults(_)
Written(ty, r) == ty.k # "nptr" \/ r # <<>>
Norm(ty, r) ==
  CASE ty.k \in {"vec", "opt", "ptr", "nptr"} -> [i \in 1..Len(r) |-> Norm(ty.e, r[i])]
    [] ty.k = "set" -> {Norm(ty.e, r[i]) : i \in 1..Len(r)}
    \* a null pointer is not written
    [] ty.k = "map" -> {<<r[i][1], Norm(ty.e, r[i][2])>> : i \in {j \in 1..Len(r) : Written(ty.e, r[j][2])}}
    [] ty.k = "mmap" -> LET w == SelectSeq(r, LAMBDA e : Written(ty.e, e[2])) IN
                        Group([i \in 1..Len(w) |-> <<w[i][1], Norm(ty.e, w[i][2])>>])
    [] ty.k = "obj" -> [i \in 1..Len(r) |-> Norm(ty.f[i][2], r[i])]
    [] OTHER -> r
(* The defaults of members as values of the specification.                       *)
WithDefaults(ty) ==
  CASE ty.k = "obj" -> LET f == [i \in 1..Len(ty.f) |-> <<ty.f[i][1], WithDefaults(ty.f[i][2])>>] IN
                       [k |-> "obj", f |-> f, d |-> [i \in 1..Len(f) |-> Norm(f[i][2], ty.d[i])]]
    [] ty.k \in {"vec", "opt", "ptr", "nptr", "set"} -> [k |-> ty.k, e |-> WithDefaults(ty.e)]
    [] ty.k \in {"map", "mmap"} -> [k |-> ty.k, q |-> ty.q, e |-> WithDefaults(ty.e)]
    [] OTHER -> ty
Types(e) == {<<e.types[i][1], WithDefaults(e.types[i][2])>> : i \in 1..Len(e.types)}
Parse(e) ==
  LET ty == WithDefaults(e.ty)
      p == Read(ty, Tokens(e.text))
  IN /\ e.ok = (p.r = "ok")
     /\ e.err = ~e.ok /\ e.same
     /\ e.ok => Norm(ty, e.v) = p.v
Unparse(e) ==
  LET ty == WithDefaults(e.ty)
      p == Read(ty, Tokens(e.text))
  IN /\ p.r = "ok" /\ p.v = Norm(ty, e.v)
     /\ e.ok /\ ~e.err /\ Norm(ty, e.v2) = p.v
RootOf(e) ==
  LET p == Root(Types(e), e.key, Tokens(e.text)) IN
  /\ e.ok = p.ok /\ e.err = ~e.ok /\ e.same
  /\ e.ok => /\ e.name = p.name
             /\ Norm((CHOOSE t \in Types(e) : t[1] = p.name)[2], e.v) = p.v
UnparseRoot(e) ==
  LET ts == Types(e)
      p == Root(ts, e.key, Tokens(e.text))
      ty == (CHOOSE t \in ts : t[1] = e.name)[2]
  IN /\ p.ok /\ p.name = e.name /\ p.v = Norm(ty, e.v)
     /\ e.ok /\ ~e.err /\ e.name2 = e.name /\ Norm(ty, e.v2) = p.v
Allowed(e) == CASE e.op = "p" -> Parse(e) [] e.op = "u" -> Unparse(e)
                [] e.op = "r" -> RootOf(e) [] e.op = "w" -> UnparseRoot(e)
Init == tid \in 1..Len(Traces) /\ l = 1
Next == \/ l <= Len(T) /\ Allowed(T[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
