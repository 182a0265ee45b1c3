------------------------------- MODULE Tagged -------------------------------
(* Tagged pairs and tuples, convertible pairs and the tuple utilities          *)
(* (bcl/tagged.h, bcl/convertible_pair.h, bcl/tuple_utils.h). A world E is a   *)
(* sequence of elements [tags, kind]; the first tag is the main one, an        *)
(* element of kind "mov" or "str" gives its value away when it is moved. A     *)
(* state has objects, which are sequences of values.                           *)
EXTENDS Integers, Sequences, FiniteSets
Range(f) == {f[i] : i \in DOMAIN f}
TagsOf(E) == UNION {Range(E[p].tags) : p \in DOMAIN E}
(* Unambiguous worlds: every tag belongs to one element.                       *)
WellFormed(E) == \A p, q \in DOMAIN E : p # q => Range(E[p].tags) \cap Range(E[q].tags) = {}
Pos(E, t) == CHOOSE p \in DOMAIN E : t \in Range(E[p].tags)
Zero(E) == [p \in DOMAIN E |-> 0]
Left(E, x) == [p \in DOMAIN E |-> IF E[p].kind = "val" THEN x[p] ELSE 0]
Copyable(E) == \A p \in DOMAIN E : E[p].kind # "mov"
Apply(E, o, st) ==
  CASE o.op = "new"     -> [st EXCEPT ![o.i] = Zero(E)]
    [] o.op = "make"    -> [st EXCEPT ![o.i] = o.vs]
    [] o.op = "assign"  -> [st EXCEPT ![o.i] = o.vs]
    [] o.op = "set"     -> [st EXCEPT ![o.i][Pos(E, o.k)] = o.v]
    [] o.op = "setpos"  -> [st EXCEPT ![o.i][o.k] = o.v]
    [] o.op \in {"copy", "cctor"} -> [st EXCEPT ![o.i] = st[o.j]]
    [] o.op \in {"move", "mctor"} -> [st EXCEPT ![o.j] = Left(E, st[o.j]), ![o.i] = st[o.j]]
    [] o.op = "swap"    -> [st EXCEPT ![o.i] = st[o.j], ![o.j] = st[o.i]]
    [] o.op = "add"     -> [st EXCEPT ![o.i] = [p \in DOMAIN @ |-> @[p] + o.v]]
    [] o.op = "args"    -> [st EXCEPT ![o.i] = [p \in DOMAIN @ |-> o.v + p]]
Legal(E, o, st) ==
  CASE o.op \in {"make", "assign"} -> Len(o.vs) = Len(E)
    [] o.op = "set" -> o.k \in TagsOf(E)
    [] o.op = "setpos" -> o.k \in DOMAIN E
    [] o.op \in {"copy", "cctor"} -> Copyable(E)
    [] o.op \in {"move", "mctor"} -> o.i # o.j
    [] OTHER -> TRUE
(* What is known at compile time: h.main, h.idx, ... are indexed by positions  *)
(* or tags 1..h.n.                                                             *)
HeaderOk(h) ==
  LET E == h.E IN
  /\ h.size = Len(E) /\ h.none = (E = <<>>)
  /\ \A p \in DOMAIN E : h.main[p] = E[p].tags[1]
  /\ \A t \in 1..h.n :
       /\ h.has[t] = (t \in TagsOf(E))
       /\ t \in TagsOf(E) => /\ h.idx[t] = Pos(E, t) - 1
                             /\ h.elmain[t] = E[Pos(E, t)].tags[1]
                             /\ h.elalias[t] = E[Pos(E, t)].tags
                             /\ h.elkind[t] = E[Pos(E, t)].kind
       /\ \A p \in DOMAIN E : h.alias[p][t] = (t \in Range(E[p].tags))
  (* tags added to an element, one by one or as a list, follow its own ones    *)
  /\ \A p \in DOMAIN E : h.more[p] = E[p].tags \o <<h.n + 1, h.n + 2>>
  /\ Len(h.same) = Len(E) /\ Range(h.same) = {E[p].tags[1] : p \in DOMAIN E}
ObjOk(h, x, o) ==
  LET E == h.E IN
  /\ o.pos = x
  /\ o.each = [p \in DOMAIN E |-> <<IF h.w = "s" THEN p ELSE E[p].tags[1], x[p]>>]
  /\ o.ceach = o.each
  /\ o.args = x
  /\ \A t \in 1..h.n : t \in TagsOf(E) => o.tag[t] = x[Pos(E, t)]
=============================================================================
