------------------------------ MODULE JsonText ------------------------------
(* JSON texts (bcl/Json.h). A text is a sequence of byte codes. Tokens splits it *)
(* into tokens, P reads a value of a type from the tokens, Root an object that   *)
(* is marked with its name. Types are records; values:                          *)
(*   numbers, characters, logical values and strings: byte codes of their text   *)
(*   [k: "vec", e]: sequence        [k: "set", e]: set                           *)
(*   [k: "map", q, e]: set of <<key, value>>                                     *)
(*   [k: "mmap", q, e]: set of <<key, sequence of values>>                       *)
(*   [k: "opt", e]: <<>> or <<value>>                                            *)
(*   [k: "obj", f]: sequence of the values of the members f[i] = <<name, type>>  *)
(*   [k: "ptr", e]: sequence (one value may stand for an array of one element)   *)
(*   [k: "nptr", e]: <<>> (null) or <<value>>, a member or a value of a map       *)
EXTENDS Integers, Sequences, FiniteSets

Space(c) == c = 32 \/ c \in 9..13
Digit(c) == c \in 48..57
Str(s) == CASE s = "true" -> <<116, 114, 117, 101>> [] s = "false" -> <<102, 97, 108, 115, 101>>
            [] s = "null" -> <<110, 117, 108, 108>>
Kw == {Str("true"), Str("false"), Str("null")}

------------------------------------------------------------------------------
(* Tokens                                                                       *)
RECURSIVE Skip(_, _), StrEnd(_, _), NumEnd(_, _, _), UnescAt(_, _), TokensAt(_, _)
Skip(t, i) == IF i <= Len(t) /\ Space(t[i]) THEN Skip(t, i + 1) ELSE i
(* Position of the quote that ends a string, 0: none. A backslash escapes.       *)
StrEnd(t, i) == IF i > Len(t) THEN 0
                ELSE IF t[i] = 92 THEN StrEnd(t, i + 2)
                ELSE IF t[i] = 34 THEN i ELSE StrEnd(t, i + 1)
(* Last position of a number: digits with at most one dot.                       *)
NumEnd(t, i, dot) == IF i > Len(t) THEN i - 1
                     ELSE IF Digit(t[i]) THEN NumEnd(t, i + 1, dot)
                     ELSE IF t[i] = 46 /\ ~dot THEN NumEnd(t, i + 1, TRUE) ELSE i - 1
Escaped == [c \in {110, 116, 118, 102, 114, 34, 92} |->
              CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 118 -> 11 [] c = 102 -> 12 [] c = 114 -> 13 [] OTHER -> c]
UnescAt(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE IF t[i] # 92 \/ i = Len(t) THEN <<t[i]>> \o UnescAt(t, i + 1)
  ELSE IF t[i + 1] \in DOMAIN Escaped THEN <<Escaped[t[i + 1]]>> \o UnescAt(t, i + 2)
  ELSE UnescAt(t, i + 1)
Unesc(t) == UnescAt(t, 1)
IsKw(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w
TokensAt(t, j) ==
  LET i == Skip(t, j) IN
  IF i > Len(t) THEN <<>>
  ELSE IF t[i] = 34 THEN
    LET e == StrEnd(t, i + 1) IN
    IF e = 0 THEN <<[k |-> "bad", raw |-> <<>>, v |-> <<>>]>>
    ELSE LET r == SubSeq(t, i + 1, e - 1) IN
         <<[k |-> "str", raw |-> r, v |-> Unesc(r)]>> \o TokensAt(t, e + 1)
  ELSE IF Digit(t[i]) \/ t[i] \in {43, 45} THEN
    LET e == NumEnd(t, i + 1, FALSE) IN
    <<[k |-> "num", raw |-> <<>>, v |-> SubSeq(t, i, e)]>> \o TokensAt(t, e + 1)
  ELSE IF \E w \in Kw : IsKw(t, i, w) THEN
    LET w == CHOOSE w \in Kw : IsKw(t, i, w) IN
    <<[k |-> "kw", raw |-> <<>>, v |-> w]>> \o TokensAt(t, i + Len(w))
  ELSE <<[k |-> "ch", raw |-> <<>>, v |-> <<t[i]>>]>> \o TokensAt(t, i + 1)
Tokens(t) == TokensAt(t, 1)

Is(tok, c) == tok.k = "ch" /\ tok.v[1] = c
LBrace == 123  RBrace == 125  LBracket == 91  RBracket == 93  Comma == 44  Colon == 58
IsValue(tok) == tok.k \in {"str", "num", "kw"}
Opens(tok) == Is(tok, LBrace) \/ Is(tok, LBracket)

------------------------------------------------------------------------------
(* Conversion of one value token                                                *)
RECURSIVE Strip(_), Leq(_, _, _)
Strip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
Leq(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Leq(a, b, i + 1)
DigLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Leq(a, b, 1))
AllDigits(d) == \A i \in 1..Len(d) : Digit(d[i])
(* Greatest absolute value of a non-negative and of a negative number.           *)
D31 == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>   D31n == [D31 EXCEPT ![10] = 56]
D32 == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>
D63 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
D63n == [D63 EXCEPT ![19] = 56]
D64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
Bound(k, neg) == CASE k = "int" -> IF neg THEN D31n ELSE D31
                   [] k \in {"long", "llong"} -> IF neg THEN D63n ELSE D63
                   [] k = "uint" -> D32 [] k \in {"ulong", "ullong"} -> D64
No == [ok |-> FALSE, v |-> <<>>]
Yes(v) == [ok |-> TRUE, v |-> v]
Body(t) == SubSeq(t, Skip(t, 1), Len(t))
Signed(b) == Len(b) > 0 /\ b[1] \in {43, 45}
IntOf(k, t) ==
  LET b == Body(t)
      neg == Signed(b) /\ b[1] = 45
      d == IF Signed(b) THEN Tail(b) ELSE b
      c == Strip(d)
  IN IF Len(d) = 0 \/ ~AllDigits(d) \/ (neg /\ k \in {"uint", "ulong", "ullong"}) \/ ~DigLeq(c, Bound(k, neg))
     THEN No ELSE Yes(IF neg /\ c # <<48>> THEN <<45>> \o c ELSE c)
(* Six decimals; most: digits that are too many (or are about to be) before the *)
(* dot.                                                                         *)
DecOf(t, most) ==
  LET b == Body(t)
      neg == Signed(b) /\ b[1] = 45
      d == IF Signed(b) THEN Tail(b) ELSE b
      dots == {i \in 1..Len(d) : d[i] = 46}
      p == IF dots = {} THEN Len(d) + 1 ELSE CHOOSE i \in dots : TRUE
      w == SubSeq(d, 1, p - 1)
      f == SubSeq(d, p + 1, Len(d))
  IN IF Cardinality(dots) > 1 \/ ~AllDigits(w) \/ ~AllDigits(f) \/ Len(w) + Len(f) = 0 \/ Len(Strip(w)) > most THEN No
     ELSE Yes((IF neg THEN <<45>> ELSE <<>>) \o (IF w = <<>> THEN <<48>> ELSE Strip(w)) \o <<46>>
              \o [i \in 1..6 |-> IF i <= Len(f) THEN f[i] ELSE 48])
Scalars == {"int", "uint", "long", "ulong", "llong", "ullong", "bool", "char", "str", "chars", "dec", "flt"}
Conv(k, tok) ==
  IF ~IsValue(tok) THEN No
  ELSE CASE k = "str" -> Yes(tok.v)
         [] k = "char" -> IF Len(tok.v) = 1 THEN Yes(tok.v) ELSE No
         [] k = "bool" -> IF tok.k \in {"kw", "str"} /\ tok.v \in {Str("true"), Str("false")} THEN Yes(tok.v) ELSE No
         [] k = "chars" -> Yes([n \in 1..Len(tok.v) |-> <<tok.v[n]>>])
         [] k = "dec" -> DecOf(tok.v, 309)
         [] k = "flt" -> DecOf(tok.v, 39)
         [] OTHER -> IntOf(k, tok.v)

------------------------------------------------------------------------------
(* Values. The result is "ok" with the value v and the index i after it,         *)
(* "fail", or "more" when the text ends within the value.                       *)
RECURSIVE P(_, _, _), Items(_, _, _, _, _), SkipTo(_, _, _), Sorted(_, _)
Ok(v, i) == [r |-> "ok", v |-> v, i |-> i]
Fail == [r |-> "fail", v |-> <<>>, i |-> 0]
More == [r |-> "more", v |-> <<>>, i |-> 0]
(* An ignored compound value: only its brackets have to match.                  *)
SkipTo(T, i, stk) ==
  IF i > Len(T) THEN More
  ELSE IF T[i].k = "bad" THEN Fail
  ELSE IF Is(T[i], LBrace) THEN SkipTo(T, i + 1, <<RBrace>> \o stk)
  ELSE IF Is(T[i], LBracket) THEN SkipTo(T, i + 1, <<RBracket>> \o stk)
  ELSE IF Is(T[i], RBrace) \/ Is(T[i], RBracket) THEN
    IF ~Is(T[i], stk[1]) THEN Fail
    ELSE IF Len(stk) = 1 THEN Ok(<<>>, i + 1) ELSE SkipTo(T, i + 1, Tail(stk))
  ELSE SkipTo(T, i + 1, stk)
SkipValue(T, i) == SkipTo(T, i + 1, <<IF Is(T[i], LBrace) THEN RBrace ELSE RBracket>>)

Empty(ty) == CASE ty.k \in {"vec", "ptr"} -> <<>>
               [] ty.k \in {"set", "map"} -> {}
               [] ty.k = "mmap" -> <<>>
               [] ty.k = "obj" -> ty.d
(* The elements ordered by their indices.                                       *)
Sorted(acc, n) == IF n = 0 THEN <<>> ELSE Append(Sorted(acc, n - 1), (CHOOSE e \in acc : e[1] = n - 1)[2])
RECURSIVE Num(_, _)
Num(d, i) == IF i = 0 THEN 0 ELSE Num(d, i - 1) * 10 + d[i] - 48
Index(d) == IF Len(d) > 8 THEN 99999999 ELSE Num(d, Len(d))
Range(s) == {s[i] : i \in 1..Len(s)}
Group(s) == {<<k, LET S == SelectSeq(s, LAMBDA e : e[1] = k) IN [i \in 1..Len(S) |-> S[i][2]]>> : k \in {e[1] : e \in Range(s)}}
Finish(ty, br, acc) ==
  CASE ty.k \in {"vec", "ptr"} /\ br ->
         LET n == Len(acc) IN
         IF {e[1] : e \in Range(acc)} = 0..(n - 1) THEN Yes(Sorted(Range(acc), n)) ELSE No
    [] ty.k = "mmap" -> Yes(Group(acc))
    [] OTHER -> Yes(acc)
(* One item at the token j; key is the token of its key when br.                 *)
Item(ty, T, key, j, br, acc) ==
  CASE ty.k \in {"vec", "ptr"} ->
         LET e == P(ty.e, T, j)
             x == Conv("ullong", key)
         IN IF br /\ ~x.ok THEN Fail
            ELSE IF e.r # "ok" THEN e
            ELSE IF ~br THEN Ok(Append(acc, e.v), e.i)
            ELSE IF \E a \in Range(acc) : a[1] = Index(x.v) THEN Fail
            ELSE Ok(Append(acc, <<Index(x.v), e.v>>), e.i)
    [] ty.k = "set" ->
         LET e == P(ty.e, T, j) IN
         IF e.r # "ok" THEN e ELSE IF e.v \in acc THEN Fail ELSE Ok(acc \cup {e.v}, e.i)
    [] ty.k = "map" ->
         LET q == Conv(ty.q.k, key)
             e == P(ty.e, T, j)
         IN IF ~q.ok \/ (\E a \in acc : a[1] = q.v) THEN Fail
            ELSE IF e.r # "ok" THEN e ELSE Ok(acc \cup {<<q.v, e.v>>}, e.i)
    [] ty.k = "mmap" ->
         LET q == Conv(ty.q.k, key)
             e == P(ty.e, T, j)
         IN IF ~q.ok THEN Fail ELSE IF e.r # "ok" THEN e ELSE Ok(Append(acc, <<q.v, e.v>>), e.i)
    [] ty.k = "obj" ->
         LET fs == {n \in 1..Len(ty.f) : ty.f[n][1] = key.raw} IN
         IF fs = {} THEN (IF Opens(T[j]) THEN LET s == SkipValue(T, j) IN IF s.r = "ok" THEN Ok(acc, s.i) ELSE s
                          ELSE Ok(acc, j + 1))
         ELSE LET n == CHOOSE n \in fs : TRUE
                  e == P(ty.f[n][2], T, j)
              IN IF e.r = "ok" THEN Ok([acc EXCEPT ![n] = e.v], e.i) ELSE e
Items(ty, T, i, br, acc) ==
  IF i > Len(T) \/ (br /\ i + 1 > Len(T)) THEN IF i <= Len(T) /\ br /\ T[i].k # "str" THEN Fail ELSE More
  ELSE IF br /\ (T[i].k # "str" \/ ~Is(T[i + 1], Colon)) THEN Fail
  ELSE LET j == IF br THEN i + 2 ELSE i IN
       IF j > Len(T) THEN More
       ELSE IF ~Opens(T[j]) /\ ~IsValue(T[j]) THEN Fail
       ELSE LET e == Item(ty, T, T[i], j, br, acc) IN
            IF e.r # "ok" THEN e
            ELSE IF e.i > Len(T) THEN More
            ELSE IF Is(T[e.i], IF br THEN RBrace ELSE RBracket) THEN
              LET f == Finish(ty, br, e.v) IN IF f.ok THEN Ok(f.v, e.i + 1) ELSE Fail
            ELSE IF Is(T[e.i], Comma) THEN Items(ty, T, e.i + 1, br, e.v)
            ELSE Fail
P(ty, T, i) ==
  IF i > Len(T) THEN More
  ELSE IF ty.k \in Scalars THEN LET c == Conv(ty.k, T[i]) IN IF c.ok THEN Ok(c.v, i + 1) ELSE Fail
  ELSE IF ty.k = "opt" THEN
    IF T[i].k = "kw" /\ T[i].v = Str("null") THEN Ok(<<>>, i + 1)
    ELSE IF T[i].k = "str" /\ T[i].v = Str("null") /\ ty.e.k # "str" THEN Ok(<<>>, i + 1)
    ELSE LET e == P(ty.e, T, i) IN IF e.r = "ok" THEN Ok(<<e.v>>, e.i) ELSE e
  ELSE IF ty.k = "nptr" THEN
    LET e == P(ty.e, T, i) IN IF e.r = "ok" THEN Ok(<<e.v>>, e.i) ELSE e
  ELSE IF ty.k = "ptr" /\ ~Opens(T[i]) THEN
    LET e == P(IF ty.e.k = "char" THEN [k |-> "str"] ELSE ty.e, T, i) IN
    IF e.r # "ok" THEN e
    \* text: its characters
    ELSE Ok(IF ty.e.k = "char" THEN [n \in 1..Len(e.v) |-> <<e.v[n]>>] ELSE <<e.v>>, e.i)
  ELSE LET br == Is(T[i], LBrace) IN
    IF ~((br /\ ty.k # "set") \/ (Is(T[i], LBracket) /\ ty.k \in {"vec", "ptr", "set"})) THEN Fail
    ELSE IF i + 1 > Len(T) THEN More
    ELSE IF Is(T[i + 1], IF br THEN RBrace ELSE RBracket) THEN
      Ok(IF ty.k = "mmap" THEN {} ELSE Empty(ty), i + 2)
    ELSE Items(ty, T, i + 1, br, Empty(ty))
(* The whole text is one value.                                                  *)
Read(ty, T) ==
  LET p == P(ty, T, 1) IN
  IF p.r = "ok" /\ p.i <= Len(T) THEN Fail ELSE p

------------------------------------------------------------------------------
(* Objects that are marked with a name: types is a set of <<name, type>>.        *)
RECURSIVE FindName(_, _, _)
FindName(T, i, key) ==      \* i: at a key
  IF i + 2 > Len(T) THEN No
  ELSE IF T[i].k # "str" \/ ~Is(T[i + 1], Colon) THEN No
  ELSE IF T[i].raw = key THEN (IF T[i + 2].k = "str" THEN Yes(T[i + 2].raw) ELSE No)
  ELSE LET s == IF Opens(T[i + 2]) THEN SkipValue(T, i + 2)
                ELSE IF IsValue(T[i + 2]) THEN Ok(<<>>, i + 3) ELSE Fail
       IN IF s.r # "ok" THEN No
          ELSE IF s.i <= Len(T) /\ Is(T[s.i], Comma) THEN FindName(T, s.i + 1, key) ELSE No
Root(types, key, T) ==
  LET n == IF Len(T) > 0 /\ Is(T[1], LBrace) THEN FindName(T, 2, key) ELSE No
      m == {t \in types : t[1] = n.v}
  IN IF ~n.ok \/ m = {} THEN [ok |-> FALSE, name |-> <<>>, v |-> <<>>]
     ELSE LET t == CHOOSE t \in m : TRUE
              p == Read(t[2], T)
          IN [ok |-> p.r = "ok", name |-> n.v, v |-> p.v]
=============================================================================
