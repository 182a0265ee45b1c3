---------------------------- MODULE TraitsTrace -----------------------------
(* Executions of the real descriptors and sets, checked against Traits. The    *)
(* first event describes the layout and the static keys.                       *)
EXTENDS Traits, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
(* ctx: for every trait the traits it conflicts with and the traits of its group. *)
VARIABLES st, tid, l, ctx
vars == <<st, tid, l, ctx>>
T == Traces[tid].t
H == T[1]
L == H.L
S == H.S
N == Cardinality(AllTraits(L))
(* Keys are positions counted from the most significant bit: distinct, the     *)
(* groups one after another from the first position.                           *)
Size(g) == Cardinality(GroupTraits(L[g]))
RECURSIVE Before(_)
Before(g) == IF g = 1 THEN 0 ELSE Before(g - 1) + Size(g - 1)
Once(s, set) == Len(s) = Cardinality(set) /\ Range(s) = set
KeysOk == /\ \A k \in DOMAIN H.avail : Once(H.avail[k], 1..N)
          /\ Once(H.availe, AllTraits(S))
          /\ \A t \in 1..N : H.known[t] = <<TRUE, t \in AllTraits(S)>>
          /\ Len(H.lkeys) = Len(H.lists) /\ Len(H.lmasks) = Len(H.lists)
          /\ \A k \in DOMAIN H.lists : /\ Range(H.lkeys[k]) = {H.keys[t][1] : t \in Range(H.lists[k])}
                                        /\ Range(H.lmasks[k]) = UNION {Range(H.masks[t]) : t \in Range(H.lists[k])}
          /\ \A t \in 1..N : Len(H.conf[t]) = (IF N < 20 THEN N ELSE 20)
          /\ \A t \in 1..N : Len(H.keys[t]) = 1
          /\ \A t, u \in 1..N : t # u => H.keys[t] # H.keys[u]
          /\ \A t \in 1..N : Range(H.masks[t]) = {Before(GroupOf(L, t)) + k : k \in 1..Size(GroupOf(L, t))}
          /\ \A t \in 1..N : H.keys[t][1] \in Range(H.masks[t])
          /\ \A t \in 1..N : \A u \in DOMAIN H.conf[t] : H.conf[t][u] = Conflict(L, t, u)
DescrOk(o, d) ==
  /\ Once(o.each, d)
  /\ \A t \in 1..N : /\ o.is[t] = (t \in d)
                     /\ Once(o.conf[t], d \cap ctx.conf[t])
                     /\ Once(o.grp[t], d \cap ctx.grp[t])
  /\ Len(o.all) = Len(H.lists) /\ Len(o.any) = Len(H.lists)
  /\ \A k \in DOMAIN H.lists : /\ o.all[k] = (Range(H.lists[k]) \subseteq d)
                                /\ o.any[k] = (Range(H.lists[k]) \cap d # {})
  /\ Range(o.bits) = {H.keys[t][1] : t \in d}
ObsOk(x, o) ==
  /\ \A i \in DOMAIN x.d : DescrOk(o.d[i], x.d[i])
  /\ \A i, j \in DOMAIN x.d : o.eq[i][j] = (x.d[i] = x.d[j])
  /\ Range(o.e) = x.e
  /\ \A i \in DOMAIN x.s : DescrOk(o.s[i].d, x.s[i].tr) /\ o.s[i].ds = x.s[i].ds
  /\ o.live = Cardinality(UNION {OwnedIn(x.s[i]) : i \in DOMAIN x.s})
  /\ Consistent(S, x.e)
Init == /\ tid \in 1..Len(Traces) /\ l = 2
        /\ st = [d |-> [i \in 1..H.nd |-> {}], e |-> {}, s |-> [i \in 1..H.ns |-> EmptySet(N)]]
        /\ ctx = [conf |-> [t \in 1..N |-> Conflicts(L, {t})], grp |-> [t \in 1..N |-> GroupTraits(L[GroupOf(L, t)])]]
Next == \/ /\ l <= Len(T) /\ (l = 2 => KeysOk)
           /\ st' = Apply(L, S, T[l].o, st)
           /\ T[l].o.op = "srelease" => T[l].r = st.s[T[l].o.i].ds[T[l].o.ts[1]]
           /\ ObsOk(st', T[l].obs)
           /\ l' = l + 1 /\ UNCHANGED <<tid, ctx>>
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
