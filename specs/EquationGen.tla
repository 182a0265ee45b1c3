----------------------------- MODULE EquationGen ------------------------------
(* All systems of NE equations over NV variables with coefficients and free     *)
(* terms of a small range, up to the order of variables.                        *)
EXTENDS Equation, TLC, Json
CONSTANTS NV, NE, R, CR
VARIABLES eqs
Eqs == {<<a, x, b, y, c>> : a \in -R..R, b \in -R..R, x \in 1..NV, y \in 1..NV, c \in -CR..CR}
First(e) == e[2] = 1 /\ e[4] \in {1, 2}
Init == eqs = <<>>
Next == /\ Len(eqs) < NE
        /\ \E e \in Eqs : (eqs = <<>> => First(e)) /\ eqs' = Append(eqs, e)
Spec == Init /\ [][Next]_eqs
Emit == Len(eqs') = NE => PrintT(ToJson(eqs'))
(* A sanity check of the definitions: of two equations over one variable.       *)
GcdDef == \A a, b \in 0..12 : LET g == Gcd(a, b) IN
            /\ (a # 0 \/ b # 0) => g > 0 /\ a % g = 0 /\ b % g = 0
            /\ \A d \in 1..12 : a % d = 0 /\ b % d = 0 => (g = 0 \/ g % d = 0)
=============================================================================
