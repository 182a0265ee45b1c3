------------------------------- MODULE Traits -------------------------------
(* Trait descriptors and trait sets (bcl/trait.h). A layout lists the groups   *)
(* of traits; a group is a sequence of alternatives, an alternative a set of   *)
(* traits that may be present together. A state has descriptors (sets of       *)
(* traits), a descriptor of a smaller layout, and trait sets, which own a      *)
(* description for some of their traits.                                       *)
EXTENDS Integers, Sequences, FiniteSets
Range(f) == {f[i] : i \in DOMAIN f}
GroupTraits(g) == UNION {Range(g[i]) : i \in DOMAIN g}
AllTraits(L) == UNION {GroupTraits(L[i]) : i \in DOMAIN L}
GroupOf(L, t) == CHOOSE i \in DOMAIN L : t \in GroupTraits(L[i])
Conflict(L, a, b) ==
  LET g == GroupOf(L, a) IN
  /\ b \in GroupTraits(L[g])
  /\ ~\E i \in DOMAIN L[g] : {a, b} \subseteq Range(L[g][i])
Conflicts(L, ts) == {b \in AllTraits(L) : \E a \in ts : Conflict(L, a, b)}
Consistent(L, d) == \A a \in d : \A b \in d : ~Conflict(L, a, b)

(* Set all the traits at once; traits that exclude one another cancel out.     *)
DSet(L, d, ts) == (d \cup ts) \ Conflicts(L, ts)
DUnset(L, d, ts) == d \ ts
DUnsetGroup(L, d, ts) == {t \in d : \A u \in ts : GroupOf(L, t) # GroupOf(L, u)}

NoSet == [tr |-> {}, ds |-> <<>>]
(* ds: description (a number, 0: none) of every trait of the layout.           *)
EmptySet(n) == [tr |-> {}, ds |-> [t \in 1..n |-> 0]]
Without(ds, ts) == [t \in DOMAIN ds |-> IF t \in ts THEN 0 ELSE ds[t]]
SSet1(L, x, t) == [tr |-> DSet(L, x.tr, {t}), ds |-> Without(x.ds, Conflicts(L, {t}))]
RECURSIVE SSet(_, _, _)
SSet(L, x, ts) == IF ts = <<>> THEN x ELSE SSet(L, SSet1(L, x, Head(ts)), Tail(ts))
SUnset(L, x, ts) == [tr |-> x.tr \ ts, ds |-> Without(x.ds, ts)]
SDesc(L, x, t, v) == [SSet1(L, x, t) EXCEPT !.ds[t] = v]
(* Traits that do not conflict with one another are set (Merge), the other ones *)
(* among the given available traits are unset (Replace).                        *)
Merge(L, x, ts) == [tr |-> DSet(L, x.tr, ts), ds |-> Without(x.ds, Conflicts(L, ts))]
Replace(L, x, ts, avail) == Merge(L, SUnset(L, x, avail \ ts), ts)
OwnedIn(x) == {x.ds[t] : t \in DOMAIN x.ds} \ {0}

(* Operations: o.i and o.j are slots, o.ts traits in the order given, o.v the   *)
(* number of a new description. S is the smaller layout.                        *)
Apply(L, S, o, st) ==
  LET n == Cardinality(AllTraits(L))
      ts == Range(o.ts) IN
  CASE o.op = "dset"       -> [st EXCEPT !.d[o.i] = DSet(L, @, ts)]
    [] o.op = "dunset"     -> [st EXCEPT !.d[o.i] = DUnset(L, @, ts)]
    [] o.op = "dunsetgrp"  -> [st EXCEPT !.d[o.i] = DUnsetGroup(L, @, ts)]
    [] o.op = "dsete"      -> [st EXCEPT !.d[o.i] = DSet(L, @, AllTraits(S))]
    [] o.op = "dunsete"    -> [st EXCEPT !.d[o.i] = @ \ AllTraits(S)]
    [] o.op = "sunsete"    -> [st EXCEPT !.s[o.i] = SUnset(L, @, AllTraits(S))]
    [] o.op = "setss"      -> [st EXCEPT !.s[o.j] = Merge(L, @, st.s[o.i].tr)]
    [] o.op = "updss"      -> [st EXCEPT !.s[o.j] = Replace(L, @, st.s[o.i].tr, AllTraits(L))]
    [] o.op = "setes"      -> [st EXCEPT !.s[o.i] = Merge(L, @, st.e)]
    [] o.op = "updes"      -> [st EXCEPT !.s[o.i] = Replace(L, @, st.e, AllTraits(S))]
    [] o.op = "setse"      -> [st EXCEPT !.e = DSet(S, @, st.s[o.i].tr \cap AllTraits(S))]
    [] o.op = "updse"      -> [st EXCEPT !.e = DSet(S, @ \ AllTraits(L), st.s[o.i].tr \cap AllTraits(S))]
    [] o.op = "dunsetall"  -> [st EXCEPT !.d[o.i] = {}]
    [] o.op = "dcopy"      -> [st EXCEPT !.d[o.i] = st.d[o.j]]
    [] o.op = "dget"       -> [st EXCEPT !.d[o.i] = st.s[o.j].tr]
    [] o.op = "eset"       -> [st EXCEPT !.e = DSet(S, @, ts)]
    [] o.op = "eunset"     -> [st EXCEPT !.e = DUnset(S, @, ts)]
    [] o.op = "setde"      -> [st EXCEPT !.e = DSet(S, @, st.d[o.i] \cap AllTraits(S))]
    [] o.op = "updde"      -> [st EXCEPT !.e = DSet(S, @ \ AllTraits(L), st.d[o.i] \cap AllTraits(S))]
    [] o.op = "seted"      -> [st EXCEPT !.d[o.i] = DSet(L, @, st.e)]
    [] o.op = "upded"      -> [st EXCEPT !.d[o.i] = DSet(L, @ \ AllTraits(S), st.e)]
    [] o.op = "setds"      -> [st EXCEPT !.s[o.j] = Merge(L, @, st.d[o.i])]
    [] o.op = "updds"      -> [st EXCEPT !.s[o.j] = Replace(L, @, st.d[o.i], AllTraits(L))]
    [] o.op = "upsd"       -> [st EXCEPT !.d[o.i] = st.s[o.j].tr]
    [] o.op = "sset"       -> [st EXCEPT !.s[o.i] = SSet(L, @, o.ts)]
    [] o.op = "sunset"     -> [st EXCEPT !.s[o.i] = SUnset(L, @, ts)]
    [] o.op = "sunsetall"  -> [st EXCEPT !.s[o.i] = EmptySet(n)]
    [] o.op = "snew"       -> [st EXCEPT !.s[o.i] = EmptySet(n)]
    [] o.op = "sdesc"      -> [st EXCEPT !.s[o.i] = SDesc(L, @, o.ts[1], o.v)]
    [] o.op = "snull"      -> [st EXCEPT !.s[o.i] = SDesc(L, @, o.ts[1], 0)]
    [] o.op = "sself"      -> [st EXCEPT !.s[o.i] = IF o.ts[1] \in @.tr THEN @ ELSE SSet1(L, @, o.ts[1])]
    [] o.op = "srelease"   -> [st EXCEPT !.s[o.i].ds[o.ts[1]] = 0]
    [] o.op = "sassign"    -> [st EXCEPT !.s[o.i] = [tr |-> st.d[o.j], ds |-> EmptySet(n).ds]]
    [] o.op = "sctor"      -> [st EXCEPT !.s[o.i] = [tr |-> st.d[o.j], ds |-> EmptySet(n).ds]]
    [] o.op \in {"smove", "smovector"} ->
         IF o.i = o.j THEN st ELSE [st EXCEPT !.s[o.i] = st.s[o.j], !.s[o.j] = EmptySet(n)]
    [] o.op = "look"       -> st
=============================================================================
