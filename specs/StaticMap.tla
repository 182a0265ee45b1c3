------------------------------ MODULE StaticMap -------------------------------
(* Static maps of bcl (bcl/cell.h, StaticTraitMap in bcl/trait.h): a fixed        *)
(* sequence of distinct keys, a value for each. A key k has a kind: "val" (an     *)
(* ordinary value), "mov" (a value that knows that its content was moved away:    *)
(* Gone), "ptr" (0 or the number of an owned object). W.maps[i] are the keys of   *)
(* map i, W.kind[k] the kind of key k. A state has the values of every map and    *)
(* the objects that are alive.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
Gone == -1
Range(f) == {f[i] : i \in DOMAIN f}
Keys(W, i) == Range(W.maps[i])
Fresh(W, i) == [k \in Keys(W, i) |-> 0]
Start(W) == [m |-> [i \in DOMAIN W.maps |-> Fresh(W, i)], live |-> {}]
Shared(W, i, j) == Keys(W, i) \cap Keys(W, j)
Pointers(W, i, f) == {k \in Keys(W, i) : W.kind[k] = "ptr" /\ f[k] # 0}
(* What is left of a value that was moved away.                                   *)
Left(W, k, v) == IF W.kind[k] = "mov" THEN Gone ELSE v
(* Map i receives from map j the values of the keys it shares with it.            *)
CopyInto(W, st, i, j) ==
  [st EXCEPT !.m[i] = [k \in Keys(W, i) |-> IF k \in Keys(W, j) THEN st.m[j][k] ELSE @[k]]]
MoveInto(W, st, i, j) ==
  [CopyInto(W, st, i, j) EXCEPT
    !.m[j] = [k \in Keys(W, j) |-> IF k \in Keys(W, i) THEN Left(W, k, @[k]) ELSE @[k]]]
(* Deleting the values of map i is sensible when no object occurs twice.          *)
Clearable(W, st, i) ==
  \A k \in Pointers(W, i, st.m[i]) : \A j \in DOMAIN W.maps : \A u \in Pointers(W, j, st.m[j]) :
    <<i, k>> # <<j, u>> => st.m[i][k] # st.m[j][u]
Legal(W, o, st) ==
  CASE o.op \in {"copy", "move"} -> W.maps[o.i] = W.maps[o.j] /\ (o.op = "move" => o.i # o.j)
    [] o.op \in {"moveto", "movefrom"} -> o.i # o.j /\ W.ordered
    [] o.op = "clear" -> W.ordered /\ Clearable(W, st, o.i)
    [] o.op = "set" -> o.k \in Keys(W, o.i)
    [] o.op \in {"init", "copyto", "copyfrom"} -> W.ordered
    [] o.op = "ctor" -> W.ordered \/ W.legacy
    [] o.op = "conv" -> <<o.i, o.j>> \in Range(W.conv)
    [] OTHER -> TRUE
Made(W, i, f) == {f[k] : k \in Pointers(W, i, f)}
Apply(W, o, st) ==
  CASE o.op = "set" -> [st EXCEPT !.m[o.i][o.k] = o.v,
                                  !.live = IF W.kind[o.k] = "ptr" /\ o.v # 0 THEN @ \cup {o.v} ELSE @]
    \* constructed from a value for every key, in the order of the keys
    [] o.op = "ctor" -> LET n == [k \in Keys(W, o.i) |-> o.vs[CHOOSE x \in DOMAIN o.vs : W.maps[o.i][x] = k]] IN
                        [st EXCEPT !.m[o.i] = n, !.live = @ \cup Made(W, o.i, n)]
    \* a tree constructed from one of the same form with other keys
    [] o.op = "conv" -> [st EXCEPT !.m[o.i] = [k \in Keys(W, o.i) |->
                           st.m[o.j][W.maps[o.j][CHOOSE x \in DOMAIN W.maps[o.i] : W.maps[o.i][x] = k]]]]
    [] o.op = "new" -> [st EXCEPT !.m[o.i] = Fresh(W, o.i)]
    [] o.op = "copy" -> CopyInto(W, st, o.i, o.j)
    [] o.op = "move" -> MoveInto(W, st, o.i, o.j)
    [] o.op \in {"copyto", "copyfrom"} -> CopyInto(W, st, o.i, o.j)
    [] o.op \in {"moveto", "movefrom"} -> MoveInto(W, st, o.i, o.j)
    \* ClearCellFunctor, then InitCellFunctor
    [] o.op = "clear" -> [st EXCEPT !.live = @ \ Made(W, o.i, st.m[o.i]),
                                    !.m[o.i] = [k \in Keys(W, o.i) |-> IF W.kind[k] = "ptr" THEN 0 ELSE @[k]]]
    [] o.op = "init" -> [st EXCEPT !.m[o.i] = [k \in Keys(W, o.i) |-> IF W.kind[k] = "ptr" THEN 0 ELSE @[k]]]
    \* one more for the keys in o.vs (TraitMapConstructor with a counting inserter)
    [] o.op = "count" -> [st EXCEPT !.m[o.i] = [k \in Keys(W, o.i) |-> @[k] + IF k \in Range(o.vs) THEN 1 ELSE 0]]
    \* written as JSON and read by another map of the type
    [] o.op = "json" -> CopyInto(W, st, o.i, o.j)
    \* every value doubled by a function applied to each cell
    [] o.op = "twice" -> [st EXCEPT !.m[o.i] = [k \in Keys(W, o.i) |->
                            IF W.kind[k] = "ptr" \/ @[k] < 0 THEN @[k] ELSE (2 * @[k]) % 1000]]
(* Functions are applied to every cell once, in the order of the keys in an        *)
(* ordered map, with the value of the cell.                                        *)
Cells(W, i, f) == [x \in DOMAIN W.maps[i] |-> <<W.maps[i][x], f[W.maps[i][x]]>>]
SameBag(s, t) == Len(s) = Len(t) /\ Range(s) = Range(t)
Visited(W, i, f, s) == IF W.ordered THEN s = Cells(W, i, f) ELSE SameBag(s, Cells(W, i, f))
VisitedKeys(W, i, s) == IF W.ordered THEN s = W.maps[i] ELSE SameBag(s, W.maps[i])
=============================================================================
