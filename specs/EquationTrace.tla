---------------------------- MODULE EquationTrace -----------------------------
(* Histories of the real system of equations.                                   *)
EXTENDS Equation, TLC, Json, IOUtils
CONSTANTS D
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES st, tid, l
T == Traces[tid].t
E == T[l]
vars == <<st, tid, l>>
Par(c) == c >= 1000 /\ c < 100000
Att(c) == c + 100000
PhaseOk == IF E.op = "gcd" THEN TRUE
           ELSE CASE E.op \in {"push", "inst"} -> st.ph = "build" [] E.op = "solve" -> st.ph = "inst"
                  [] E.op = "positive" -> st.ph = "done" [] E.op = "reverse" -> st.ph \in {"done", "pos"}
Quad(s) == [i \in DOMAIN s |-> <<s[i][1], s[i][3], s[i][4], s[i][5]>>]
(* The box for completeness gets smaller when there are more variables (0: none). *)
Dist(eqs) == LET n == Cardinality(Vars(eqs)) IN IF n <= 2 THEN 2 * D ELSE IF n = 3 THEN D ELSE IF n = 4 THEN 2 ELSE IF n <= 6 THEN 1 ELSE 0
Step ==
  CASE E.op = "gcd"  -> GcdOk(E.a, E.b, E.g, E.u, E.v) /\ UNCHANGED st
    [] E.op = "push" -> /\ st' = [st EXCEPT !.rows = Append(@, E.row)]
                        /\ E.size = Len(st'.rows) /\ ~E.isinst
                        /\ E.ng = Len(E.row.g) /\ E.ni = Len(E.row.ig) /\ E.nm = Len(E.row.m)
                        /\ E.g = E.row.g /\ E.ig = E.row.ig /\ E.m = E.row.m
    [] E.op = "inst" -> /\ st' = [st EXCEPT !.ph = "inst", !.inst = E.inst]
                        /\ E.isinst /\ E.n = Len(E.inst) /\ E.size = Len(st.rows)
                        /\ Instantiation(st.rows, E.val, E.inst)
                        /\ PrintedOk(st.rows, E.val, E.inst, E.shown["instantiated"], E.shown["discarded"])
    [] E.op = "solve" -> /\ E.shown["solution"] = [i \in DOMAIN E.sol |-> <<E.sol[i][2], E.sol[i][1], E.sol[i][3], E.sol[i][4], E.sol[i][5]>>]
                         /\ \A i \in DOMAIN E.sol : E.sol[i][2] = 1
                         /\ Solved(st.inst, E.n, Quad(E.sol), Par, Dist(SubSeq(st.inst, 1, E.n)))
                         /\ st' = [st EXCEPT !.ph = IF E.n = Len(st.inst) THEN "done" ELSE "bad", !.sol = Quad(E.sol)]
    [] E.op = "positive" -> /\ \A i \in DOMAIN E.sol : E.sol[i][2] = 1 /\ E.sol[i][5] >= 0
                            /\ Quad(E.sol) = Positive(st.sol, Att)
                            /\ st' = [st EXCEPT !.ph = "pos", !.sol = Quad(E.sol)]
    [] E.op = "reverse" -> /\ Reversed(st.sol, E.sol, Att)
                           /\ st' = [st EXCEPT !.ph = "end", !.sol = <<>>]
Init == st = [ph |-> "build", rows |-> <<>>, inst |-> <<>>, sol |-> <<>>] /\ tid \in 1..Len(Traces) /\ l = 1
Next == \/ l <= Len(T) /\ PhaseOk /\ Step /\ l' = l + 1 /\ UNCHANGED tid
        \/ l > Len(T) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
