------------------------------ MODULE Utility -------------------------------
(* Functions of bcl/utility.h. Texts are sequences of character codes, numbers *)
(* are sequences of digits or bits (most significant first) or of bytes (least *)
(* significant first), so that they may be as wide as those of the code.       *)
EXTENDS Integers, Sequences, FiniteSets
Range(f) == {f[i] : i \in DOMAIN f}
Zeros(n) == [i \in 1..n |-> 0]
Reverse(a) == [i \in DOMAIN a |-> a[Len(a) + 1 - i]]

Quoted(s) == Len(s) > 1 /\ s[1] = 34 /\ s[Len(s)] = 34
Quote(s) == IF Quoted(s) THEN s ELSE <<34>> \o s \o <<34>>
White(c) == c \in {32, 9, 12, 11, 13}

(* d: digits without leading zeros, at least one.                              *)
Digits(d) == Len(d)
RECURSIVE LessZeros(_)
LessZeros(d) == IF d[Len(d)] # 0 THEN 0 ELSE 1 + LessZeros(SubSeq(d, 1, Len(d) - 1))
Mask(width, n) == [i \in 1..width |-> IF i > width - n THEN 1 ELSE 0]
Literal(bits) == Zeros(64 - Len(bits)) \o bits

(* Pairs of values in the halves of a larger one, h bytes each; a last odd byte *)
(* of it (n bytes) is not used.                                                *)
Fits(b, h) == \A i \in DOMAIN b : i > h => b[i] = 0
Low(b, h) == [i \in 1..h |-> IF i \in DOMAIN b THEN b[i] ELSE 0]
CanShrink(f, s, h) == Fits(f, h) /\ Fits(s, h)
Shrink(f, s, n) == Low(f, n \div 2) \o Low(s, n \div 2) \o Zeros(n % 2)
Restore(d, h, nf, ns) == <<Low(SubSeq(d, 1, h), nf), Low(SubSeq(d, h + 1, 2 * h), ns)>>

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Sorted(S \ {m})

(* Default construction, destruction, copy and move construction and assignment *)
(* of classes derived from Uncopyable and Unassignable, and of these themselves. *)
Can == LET uncopyable == <<TRUE, TRUE, FALSE, FALSE, TRUE, TRUE>>
           unassignable == <<TRUE, TRUE, TRUE, FALSE, TRUE, TRUE>>
           base == <<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE>>
       IN <<uncopyable, unassignable, base, base>>

(* e: what was called (e.f, e.a, ...) and what came out (e.r, ...).            *)
Ok(e) ==
  CASE e.f = "quote"  -> e.r = Quote(e.a) /\ e.s = Quote(e.a) /\ e.kept = e.a
    [] e.f = "white"  -> \A c \in 0..255 : e.r[c + 1] = White(c)
    [] e.f = "digits" -> e.n = Digits(e.a) /\ (e.a # <<0>> => e.z = LessZeros(e.a))
    [] e.f = "mask"   -> e.r = Mask(e.w, e.n)
    [] e.f = "bits"   -> e.r = e.a
    [] e.f = "literal" -> e.r = Literal(e.a)
    [] e.f = "shrink" -> /\ e.ok = CanShrink(e.a, e.b, e.t \div 2) /\ e.ok2 = e.ok
                         /\ e.ok => /\ e.r = Shrink(e.a, e.b, e.t)
                                    /\ Len(e.a) >= e.t \div 2 /\ Len(e.b) >= e.t \div 2 => e.back = <<e.a, e.b>>
    [] e.f = "restore" -> e.back = Restore(e.a, Len(e.a) \div 2, e.nf, e.ns)
    [] e.f = "swap"   -> e.r = <<e.b, e.a>> /\ e.self = e.a
    [] e.f = "insert" -> /\ e.push = e.a /\ e.pushp = e.a
                         /\ e.set = Sorted(Range(e.a)) /\ e.setp = e.set
                         /\ e.count = Len(e.a) /\ e.countp = Len(e.a)
    [] e.f = "each"   -> e.r = e.a /\ e.sz = Len(e.a)
    [] e.f = "make"   -> e.r = e.a /\ e.p = e.a /\ e.live = 0
    [] e.f = "array"  -> e.r = Zeros(e.n)
    [] e.f = "static" -> /\ e.sizes = <<1, 2, 7, 100>>
                         /\ e.uncopyable = <<FALSE, FALSE, TRUE, TRUE>>
                         /\ e.unassignable = <<TRUE, FALSE, TRUE, TRUE>>
                         /\ e.can = Can
                         /\ Cardinality(Range(e.ids)) = Len(e.ids) /\ e.ids = e.again
                         /\ e.ctimes = <<3, 2, 15, 21>>
=============================================================================
