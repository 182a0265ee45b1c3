------------------------------ MODULE Equation -------------------------------
(* Systems of binomial equations a*x + b*y = c over the integers                *)
(* (bcl/Equation.h). A row: a, x, b, y, c, guards g, inverse guards ig, computed *)
(* monomials m (<<coefficient, column>>). The state of a system:                *)
(*   ph: "build" -> "inst" -> "done", rows, inst: the instantiated equations    *)
(*   <<a, x, b, y, c>> in their order, sol: the solution, a sequence of         *)
(*   <<column, k, parameter, c>>: column + k * parameter = c.                   *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in DOMAIN s}
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _), SumMonoms(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Divides(d, n) == IF d = 0 THEN n = 0 ELSE Abs(n) % Abs(d) = 0
Div(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b

(* Instantiation: val[z] is the value of the column z, a guard holds if it is   *)
(* not zero.                                                                    *)
SumMonoms(m, val) == IF m = <<>> THEN 0 ELSE Head(m)[1] * val[Head(m)[2]] + SumMonoms(Tail(m), val)
Holds(r, val) == (\A z \in Range(r.g) : val[z] # 0) /\ (\A z \in Range(r.ig) : val[z] = 0)
Inst(r, val) == <<r.a, r.x, r.b, r.y, r.c + SumMonoms(r.m, val)>>
Kept(rows, val) == SelectSeq(rows, LAMBDA r : Holds(r, val))
Count(s, e) == Cardinality({i \in DOMAIN s : s[i] = e})
SameBag(s, t) == Len(s) = Len(t) /\ \A e \in Range(s) \cup Range(t) : Count(s, e) = Count(t, e)
Instantiation(rows, val, inst) ==
  LET k == Kept(rows, val) IN SameBag([i \in DOMAIN k |-> Inst(k[i], val)], inst)

(* Printed equations: guards with their values, monomials with their products.  *)
Truth(n) == IF n = 0 THEN 0 ELSE 1
Shown(r, c, val) ==
  <<r.a, r.x, r.b, r.y, c, [i \in DOMAIN r.g |-> <<r.g[i], Truth(val[r.g[i]])>>], [i \in DOMAIN r.ig |-> <<r.ig[i], Truth(val[r.ig[i]])>>],
    [i \in DOMAIN r.m |-> <<r.m[i][1], r.m[i][2], r.m[i][1] * val[r.m[i][2]]>>]>>
PrintedOk(rows, val, inst, kept, gone) ==
  LET k == Kept(rows, val)
      d == SelectSeq(rows, LAMBDA r : ~Holds(r, val))
  IN /\ SameBag([i \in DOMAIN k |-> Shown(k[i], k[i].c + SumMonoms(k[i].m, val), val)], kept)
     /\ SameBag([i \in DOMAIN d |-> Shown(d[i], d[i].c, val)], gone)
     /\ inst = [i \in DOMAIN kept |-> SubSeq(kept[i], 1, 5)]

(* What a solution says about a column: <<c, k, parameter>>, its value is       *)
(* c - k * parameter. A column without an equation is its own parameter.        *)
Of(sol, v) == LET I == {i \in DOMAIN sol : sol[i][1] = v} IN
              IF I = {} THEN <<0, -1, -v>> ELSE LET s == sol[CHOOSE i \in I : TRUE] IN <<s[4], s[2], s[3]>>
Unique(sol, isPar(_)) == /\ \A i, j \in DOMAIN sol : sol[i][1] = sol[j][1] => i = j
                         /\ \A i \in DOMAIN sol : ~isPar(sol[i][1]) /\ isPar(sol[i][3])
Vars(eqs) == UNION {{eqs[i][2], eqs[i][4]} : i \in DOMAIN eqs}
(* Every point of the solution solves the equation.                             *)
Sound(sol, e) ==
  LET x == Of(sol, e[2])
      y == Of(sol, e[4])
  IN /\ e[1] * x[1] + e[3] * y[1] = e[5]
     /\ IF x[3] = y[3] THEN e[1] * x[2] + e[3] * y[2] = 0 ELSE e[1] * x[2] = 0 /\ e[3] * y[2] = 0
(* The equation has a solution among the points of the solution.                *)
Compatible(sol, e) ==
  LET x == Of(sol, e[2])
      y == Of(sol, e[4])
      c == e[5] - e[1] * x[1] - e[3] * y[1]
  IN Divides(IF x[3] = y[3] THEN Abs(e[1] * x[2] + e[3] * y[2]) ELSE Gcd(Abs(e[1] * x[2]), Abs(e[3] * y[2])), c)
(* The point p (a function of the columns) belongs to the solution.             *)
Member(sol, p) ==
  \A t \in {Of(sol, v)[3] : v \in DOMAIN p} :
    LET S == {v \in DOMAIN p : Of(sol, v)[3] = t} IN
    \E n \in {0} \cup {LET o == Of(sol, v) IN Div(o[1] - p[v], o[2]) : v \in {w \in S : Of(sol, w)[2] # 0}} :
      \A v \in S : LET o == Of(sol, v) IN o[2] * n = o[1] - p[v]
Solves(p, e) == e[1] * p[e[2]] + e[3] * p[e[4]] = e[5]
(* Every solution of the equations near one point of the solution belongs to it. *)
Complete(sol, eqs, d) ==
  LET V == Vars(eqs) IN
  \A q \in [V -> -d..d] :
    LET p == [v \in V |-> Of(sol, v)[1] + q[v]] IN
    (\A i \in DOMAIN eqs : Solves(p, eqs[i])) => Member(sol, p)
(* The same without a search, for any number of variables. The variables fall    *)
(* into parts linked by equations in which both coefficients count; the          *)
(* solutions of a part are a line or a point (Pinned). A line has to be one      *)
(* parameter of the part, with coefficients that have no common divisor.         *)
Links(eqs) == {i \in DOMAIN eqs : eqs[i][1] # 0 /\ eqs[i][3] # 0 /\ eqs[i][2] # eqs[i][4]}
RECURSIVE Linked(_, _), Ratios(_, _, _), GcdOf(_)
Linked(eqs, S) == LET N == S \cup UNION {{eqs[i][2], eqs[i][4]} : i \in {j \in Links(eqs) : {eqs[j][2], eqs[j][4]} \cap S # {}}}
                  IN IF N = S THEN S ELSE Linked(eqs, N)
Frac(n, d) == LET g == Gcd(Abs(n), Abs(d)) IN IF d < 0 THEN <<-n \div g, -d \div g>> ELSE <<n \div g, d \div g>>
(* Values of variables <<v, n, d>> in proportion to one of them, as they follow   *)
(* from the homogeneous equations in k steps; at most two values of each.         *)
TwoFold(R) == \E p, q \in R : p[1] = q[1] /\ p # q
Ratios(eqs, R, k) ==
  IF k = 0 \/ TwoFold(R) THEN R
  ELSE Ratios(eqs, R \cup {LET e == eqs[q[1]]
                               p == q[2]
                               f == IF p[1] = e[2] THEN <<e[4], Frac(-e[1] * p[2], e[3] * p[3])>>
                                                   ELSE <<e[2], Frac(-e[3] * p[2], e[1] * p[3])>>
                           IN <<f[1], f[2][1], f[2][2]>> :
                           q \in {x \in Links(eqs) \X R : x[2][1] \in {eqs[x[1]][2], eqs[x[1]][4]}}}, k - 1)
Pinned(eqs, C) ==
  \/ \E i \in DOMAIN eqs : LET e == eqs[i] IN
       IF e[2] = e[4] THEN e[2] \in C /\ e[1] + e[3] # 0
       ELSE \/ e[1] # 0 /\ e[3] = 0 /\ e[2] \in C
            \/ e[1] = 0 /\ e[3] # 0 /\ e[4] \in C
  \/ TwoFold(Ratios(eqs, {<<CHOOSE v \in C : TRUE, 1, 1>>}, Cardinality(C) + 1))
GcdOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN Gcd(x, GcdOf(S \ {x}))
Exact(sol, eqs) ==
  LET V == Vars(eqs)
      Free(W) == {v \in W : Of(sol, v)[2] # 0}
  IN \A C \in {Linked(eqs, {v}) : v \in V} :
       IF Pinned(eqs, C) THEN Free(C) = {}
       ELSE LET P == {Of(sol, v)[3] : v \in Free(C)} IN
            /\ Cardinality(P) = 1
            /\ GcdOf({Abs(Of(sol, v)[2]) : v \in Free(C)}) = 1
            /\ \A v \in Free(V \ C) : Of(sol, v)[3] \notin P
(* n of the equations have been solved.                                         *)
Solved(eqs, n, sol, isPar(_), d) ==
  LET first == SubSeq(eqs, 1, n)
      s == SelectSeq(sol, LAMBDA r : ~isPar(r[1]))
  IN /\ Unique(s, isPar)
     /\ \A i \in 1..n : Sound(s, first[i])
     /\ Exact(s, first)
     /\ d > 0 => Complete(s, first, d)
     /\ n < Len(eqs) => ~Compatible(s, eqs[n + 1])
     /\ n = Len(eqs) => s = sol

(* Non-negative free terms: every column v is replaced with att(v) = v - min.    *)
Least(sol) == LET C == {sol[i][4] : i \in DOMAIN sol} \cup {0} IN CHOOSE m \in C : \A c \in C : m <= c
Positive(sol, att(_)) ==
  LET m == Least(sol) IN
  IF m = 0 THEN sol ELSE [i \in DOMAIN sol |-> <<att(sol[i][1]), sol[i][2], sol[i][3], sol[i][4] - m>>]
(* Variables instead of parameters: att(t) = L * t for one L of each t, so that  *)
(* att(t) + p * v = p * c and p * k = L.                                         *)
Reversed(sol, rev, att(_)) ==
  /\ Len(sol) = Len(rev)
  /\ \A i \in DOMAIN sol :
       LET s == sol[i]
           r == rev[i]
       IN IF s[2] = 0 THEN r = <<s[1], 1, s[2], s[3], s[4]>>
          ELSE /\ r[1] = att(s[3]) /\ r[2] = 1 /\ r[4] = s[1] /\ r[3] # 0 /\ r[5] = r[3] * s[4]
  /\ \A i, j \in DOMAIN sol : sol[i][2] # 0 /\ sol[j][2] # 0 /\ sol[i][3] = sol[j][3] => rev[i][3] * sol[i][2] = rev[j][3] * sol[j][2]

(* Extended greatest common divisor.                                            *)
GcdOk(a, b, g, u, v) == g = Gcd(Abs(a), Abs(b)) /\ a * u + b * v = g
=============================================================================
