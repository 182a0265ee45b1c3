-------------------------------- MODULE Legacy --------------------------------
(* The legacy part of bcl (include/bcl/legacy): errors of applications            *)
(* (exception.h), texts (text.h) and static trees (tree.h).                       *)
(* An error is [type, subs]: 0 (no type of its own) or a number in Priority, and  *)
(* the sequence of errors it is divided into. An application is [errors, uses]:   *)
(* its errors and the numbers of the applications it uses.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Types == <<"warning", "error", "fatal error">>
RECURSIVE Count(_), Codes(_, _)
Count(es) == IF es = <<>> THEN 0 ELSE 1 + Count(Head(es).subs) + Count(Tail(es))
(* All errors below a list as [path, code], codes from c on: an error comes before *)
(* those it is divided into, and these before the next one.                        *)
Codes(es, c) ==
  IF es = <<>> THEN <<>>
  ELSE <<[path |-> <<1>>, code |-> c]>>
       \o [i \in 1..Count(Head(es).subs) |-> LET x == Codes(Head(es).subs, c + 1)[i] IN [x EXCEPT !.path = <<1>> \o @]]
       \o LET R == Codes(Tail(es), c + 1 + Count(Head(es).subs)) IN
          [i \in DOMAIN R |-> [R[i] EXCEPT !.path = <<@[1] + 1>> \o Tail(@)]]
Code(es, p) == LET S == Codes(es, 1) IN S[CHOOSE i \in DOMAIN S : S[i].path = p].code
RECURSIVE Kind(_, _, _), Brief(_)
Max(a, b) == IF a > b THEN a ELSE b
(* The most severe type of the errors on a path.                                   *)
Kind(es, p, m) == IF p = <<>> THEN Types[m]
                  ELSE Kind(es[p[1]].subs, Tail(p), Max(m, es[p[1]].type))
(* Errors are called by their place, e.g. "e1", "e2"; the description of a path.   *)
Name(i) == "e" \o ToString(i)
Brief(p) == IF Len(p) = 1 THEN Name(p[1]) ELSE Name(p[1]) \o ": " \o Brief(Tail(p))
(* Codes of an application and all it uses are disjoint: how many codes come       *)
(* before those of application b, seen from a. <<offset, found>>                   *)
RECURSIVE Offset(_, _, _), InUses(_, _, _)
Offset(A, a, b) == IF a = b THEN <<0, TRUE>>
                   ELSE LET r == InUses(A, A[a].uses, b) IN <<Count(A[a].errors) + r[1], r[2]>>
InUses(A, u, b) == IF u = <<>> THEN <<0, FALSE>>
                   ELSE LET h == Offset(A, Head(u), b) IN
                        IF h[2] THEN h ELSE LET r == InUses(A, Tail(u), b) IN <<h[1] + r[1], r[2]>>
Uses(A, a, b) == Offset(A, a, b)[2]
Absolute(A, a, b, p) == Offset(A, a, b)[1] + Code(A[b].errors, p)
AppName(a) == "APP" \o ToString(a)
Text(a, kind, code, msg) == AppName(a) \o ": " \o kind \o " " \o ToString(code) \o ": " \o msg
Paths(es) == {Codes(es, 1)[i].path : i \in 1..Count(es)}
(* What a program observes of an error thrown by application b and seen by a.      *)
ErrorOk(A, o) ==
  LET es == A[o.b].errors
      k == Kind(es, o.path, 1)
  IN /\ o.path \in Paths(es)
     /\ o.code = Code(es, o.path) /\ o.type = k /\ o.brief = Brief(o.path)
     /\ o.text = Text(o.b, k, o.code, o.brief)
     /\ o.relative = o.code /\ o.etype = k /\ o.ebrief = o.brief
     /\ o.count = Count(A[o.b].errors[o.path[1]].subs)
     /\ \A x \in 1..Len(o.seen) : LET a == o.seen[x].a IN
          /\ Uses(A, a, o.b)
          /\ o.seen[x].code = Absolute(A, a, o.b, o.path)
          /\ o.seen[x].text = Text(a, k, o.seen[x].code, o.brief)
     /\ {o.seen[x].a : x \in 1..Len(o.seen)} = {a \in DOMAIN A : Uses(A, a, o.b)}
     /\ o.castmsg = (IF Len(o.path) = 1 THEN "" ELSE Brief(SubSeq(o.path, 1, Len(o.path) - 1)) \o ": ")
                    \o "type cast from type 'from' to type 'to' is not valid"
     \* the error of a cast is the same error with a message of its own
     /\ o.from = "from" /\ o.into = "to" /\ o.castbrief = o.ebrief /\ o.casttype = o.etype
     /\ Len(o.castseen) = Len(o.seen)
     /\ \A x \in 1..Len(o.castseen) : /\ o.castseen[x].a = o.seen[x].a /\ o.castseen[x].code = o.seen[x].code
                                     /\ o.castseen[x].text = Text(o.seen[x].a, k, o.seen[x].code, o.castmsg)
(* Texts: characters are numbers. A number is given by its sign and digits.        *)
Decimal(neg, digits) == (IF neg THEN <<45>> ELSE <<>>) \o [i \in DOMAIN digits |-> 48 + digits[i]]
NumberOk(o) == LET t == Decimal(o.neg, o.digits) IN o.text = t /\ o.ansi = t /\ o.wide = t
(* A copy needs room for the text and its end; otherwise nothing is written.       *)
CopyOk(o) == /\ Len(o.r) = 3
             /\ \A i \in DOMAIN o.r :
                  IF Len(o.from) < o.size THEN o.r[i].to = o.from /\ ~ o.r[i].thrown
                  ELSE o.r[i].thrown /\ o.r[i].to = <<>> /\ o.r[i].code = 6
(* Logic of types: 0 and 1.                                                        *)
Not(a) == 1 - a
And(a, b) == a * b
Or(a, b) == Max(a, b)
LogicOk(o) == /\ o["not"] = Not(o.a) /\ o["and"] = And(o.a, o.b) /\ o["or"] = Or(o.a, o.b)
              /\ o.nested = Or(Not(o.a), And(o.a, o.b))
              /\ o["if"] = 2 - o.a /\ o.ifdo = 2 - Or(o.a, o.b)
              /\ o.same = (IF o.a = o.b THEN 1 ELSE 0)
Ok(A, o) == CASE o.op = "err" -> ErrorOk(A, o)
              [] o.op = "num" -> NumberOk(o)
              [] o.op = "copy" -> CopyOk(o)
              [] o.op = "logic" -> LogicOk(o)
=============================================================================
