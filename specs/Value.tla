------------------------------- MODULE Value --------------------------------
(* Legacy values (bcl/legacy/value.h): a weak one is undefined (0) or holds a   *)
(* value (1, 2, ..., in their order), a strong one always holds a value. And    *)
(* the logic of types (namespace Utility of bcl/utility.h).                     *)
EXTENDS Integers, Sequences
Start(NW, NS) == [w |-> [i \in 1..NW |-> 0], s |-> [i \in 1..NS |-> 1]]

(* new objects: wnew, wnull, wval, wcopy, wstrong, snew, scopyw, scopys;        *)
(* assignments: tow0 (undefined), towv, toww, tows, tosv, tosw, toss; put and   *)
(* sput write through a reference to the value.                                 *)
(* o.x: copying a value of the type fails in the operation.                     *)
Copying == {"wval", "towv", "snew", "tosv", "wcopy", "toww", "scopyw", "tosw", "wstrong", "tows", "scopys", "toss"}
Legal(o, st) == /\ o.op = "put" => st.w[o.i] # 0
                /\ o.x => o.op \in Copying /\ (o.op \in {"wcopy", "toww", "scopyw", "tosw"} => st.w[o.j] # 0)
(* An undefined value cannot become a strong one: the object stays as it was,   *)
(* undefined or with its value, and so it does if copying the value fails.      *)
Throws(o, st) == o.x \/ (o.op \in {"scopyw", "tosw"} /\ st.w[o.j] = 0)
Apply(o, st) ==
  CASE Throws(o, st) -> st
    [] o.op \in {"wnew", "wnull", "tow0"}   -> [st EXCEPT !.w[o.i] = 0]
    [] o.op \in {"wval", "towv", "put"}     -> [st EXCEPT !.w[o.i] = o.v]
    [] o.op \in {"wcopy", "toww"}           -> [st EXCEPT !.w[o.i] = st.w[o.j]]
    [] o.op \in {"wstrong", "tows"}         -> [st EXCEPT !.w[o.i] = st.s[o.j]]
    [] o.op \in {"snew", "tosv", "sput"}    -> [st EXCEPT !.s[o.i] = o.v]
    [] o.op \in {"scopyw", "tosw"}          -> [st EXCEPT !.s[o.i] = st.w[o.j]]
    [] o.op \in {"scopys", "toss"}          -> [st EXCEPT !.s[o.i] = st.s[o.j]]

(* Two undefined values are equal, otherwise an undefined one is neither equal  *)
(* nor less nor greater.                                                        *)
Bit(b, n) == IF b THEN n ELSE 0
Compare(a, b) ==
  LET d == a # 0 /\ b # 0
  IN Bit(a = b, 1) + Bit(a # b, 2) + Bit(d /\ a < b, 4) + Bit(d /\ a <= b, 8) + Bit(d /\ a > b, 16) + Bit(d /\ a >= b, 32)
(* Numbers of different types, in quarters: compared by their values. A number  *)
(* which is not one is neither equal, nor less, nor greater.                    *)
Numbers(a, b) ==
  CASE a.u \/ b.u     -> Bit(a.u /\ b.u, 1) + Bit(~(a.u /\ b.u), 2)
    [] a.nan \/ b.nan -> 2
    [] OTHER          -> LET x == a.q
                             y == b.q
                         IN Bit(x = y, 1) + Bit(x # y, 2) + Bit(x < y, 4) + Bit(x <= y, 8) + Bit(x > y, 16) + Bit(x >= y, 32)
(* Comparison with undef: only equality.                                        *)
Undef(a) == Bit(a = 0, 1) + Bit(a # 0, 2)

(* Types: <<"int">>, <<"ptr", t>>, <<"ref", t>>, <<"const", t>>, <<"val", t>>.  *)
Scalars == {"short", "int", "long", "longlong", "ushort", "uint", "ulong", "ulonglong", "float", "double", "longdouble",
            "char", "wchar", "null"}
RECURSIVE Scalar(_), Ptr(_)
Scalar(t) == IF t[1] = "val" THEN Scalar(t[2]) ELSE t[1] \in Scalars
Ptr(t) == IF t[1] = "val" THEN Ptr(t[2]) ELSE t[1] = "ptr"
Ref(t) == t[1] = "ref"
Const(t) == IF t[1] = "const" THEN t ELSE <<"const", t>>
Traits(t) == LET u == IF t[1] = "ptr" THEN t[2] ELSE t
             IN <<t, <<"ref", u>>, <<"ref", Const(u)>>, <<"ptr", u>>, <<"ptr", Const(u)>> >>
(* Conditions.                                                                  *)
RECURSIVE Holds(_)
Holds(c) ==
  CASE c.c = "true"   -> TRUE
    [] c.c = "false"  -> FALSE
    [] c.c = "not"    -> ~Holds(c.a)
    [] c.c = "and"    -> Holds(c.a) /\ Holds(c.b)
    [] c.c = "or"     -> Holds(c.a) \/ Holds(c.b)
    [] c.c = "same"   -> c.t = c.u
    [] c.c = "scalar" -> Scalar(c.t)
    [] c.c = "ptr"    -> Ptr(c.t)
    [] c.c = "ref"    -> Ref(c.t)
Chosen(c, t, u) == IF Holds(c) THEN t ELSE u
=============================================================================
