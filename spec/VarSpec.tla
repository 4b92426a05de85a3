----------------------------------- MODULE VarSpec -----------------------------------
(* Variants as tagged values (properties C09 and C03).  A value is [t: type, k: kind, n: number, c: components].  Numbers are *)
(* <<sign, hi, mid, lo, quarters>> with 22-bit digits, so that every 64-bit integer and quarter steps are exact.             *)
EXTENDS Integers, Sequences
NullT == 3  BoolT == 28  IntT == 29  UintT == 30  DoubleT == 31  StringT == 32
Zero == <<0, 0, 0, 0, 0>>
Val(ty, k, n, c) == [t |-> ty, k |-> k, n |-> n, c |-> c]
Null == Val(NullT, "x", Zero, <<>>)
Numeric(v) == v.t \in BoolT..DoubleT
\* ------------------------------------------------------------------ exact numbers
Mag(a) == <<a[2], a[3], a[4], a[5]>>
RECURSIVE MagCmp(_, _)
MagCmp(a, b) == IF a = <<>> THEN 0 ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE MagCmp(Tail(a), Tail(b))
NumLess(a, b) == IF a[1] # b[1] THEN a[1] < b[1] ELSE a[1] * MagCmp(Mag(a), Mag(b)) < 0
Trunc(a) == IF a[2] = 0 /\ a[3] = 0 /\ a[4] = 0 THEN Zero ELSE <<a[1], a[2], a[3], a[4], 0>>
\* ------------------------------------------------------------------ integer ranges
D == 4194303
Int32 == [lo |-> <<-1, 0, 512, 0, 0>>, hi |-> <<1, 0, 511, D, 0>>]
Int64 == [lo |-> <<-1, 524288, 0, 0, 0>>, hi |-> <<1, 524287, D, D, 0>>]
Uint32 == [lo |-> Zero, hi |-> <<1, 0, 1023, D, 0>>]
Uint64 == [lo |-> Zero, hi |-> <<1, 1048575, D, D, 0>>]
\* Conversion to an integer type: exact, or the nearest representable value and "overflow".
Sat(r, n, frac) == IF NumLess(n, r.lo) THEN <<r.lo, "overflow">> ELSE IF NumLess(r.hi, n) THEN <<r.hi, "overflow">>
                   ELSE <<Trunc(n), IF frac \/ n[5] # 0 THEN "overflow" ELSE "ok">>
ToInt(r, v) == CASE v.t = NullT -> <<Zero, "ok">>
                 [] Numeric(v) /\ v.k = "num" -> Sat(r, v.n, FALSE)
                 [] Numeric(v) /\ v.k = "nan" -> <<Zero, "invalid">>
                 [] Numeric(v) /\ v.k = "tiny" -> <<Zero, "overflow">>
                 [] Numeric(v) -> <<IF v.n[1] < 0 THEN r.lo ELSE r.hi, "overflow">>
                 [] OTHER -> <<Zero, "invalid">>
One == <<1, 0, 0, 1, 0>>
ToBool(v) == CASE v.t = NullT -> <<Zero, "ok">>
               [] Numeric(v) -> <<IF v.k = "nan" \/ v.n = Zero THEN Zero ELSE One, "ok">>
               [] v.t = StringT -> <<IF v.c = <<0>> THEN Zero ELSE One, "ok">>
               [] OTHER -> <<Zero, "invalid">>
\* An integer is a double when at most 53 bits lie between its first and last one bits.
RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
RECURSIVE Low(_)
Low(x) == IF x % 2 = 1 THEN 0 ELSE 1 + Low(x \div 2)
BitLen(n) == IF n[2] > 0 THEN 44 + Bits(n[2]) ELSE IF n[3] > 0 THEN 22 + Bits(n[3]) ELSE Bits(n[4])
LowBit(n) == IF n[4] > 0 THEN Low(n[4]) ELSE IF n[3] > 0 THEN 22 + Low(n[3]) ELSE IF n[2] > 0 THEN 44 + Low(n[2]) ELSE 0
IsDouble(n) == BitLen(n) - LowBit(n) <= 53
\* |a - b| < 2^12 for magnitudes (the worst rounding of a 64-bit integer is 2^10)
Near(a, b) == LET dh == a[2] - b[2] dm == a[3] - b[3] dl == a[4] - b[4]
                  \* carry is at most one digit for close numbers
                  m == IF dh = 0 THEN dm ELSE IF dh = 1 /\ dm < 0 THEN dm + 4194304 ELSE IF dh = -1 /\ dm > 0 THEN dm - 4194304 ELSE 1000000
                  x == IF m = 0 THEN dl ELSE IF m = 1 /\ dl < 0 THEN dl + 4194304 ELSE IF m = -1 /\ dl > 0 THEN dl - 4194304 ELSE 1000000
              IN x > -2048 /\ x < 2048
ToDouble(v, out, rc) == CASE v.t = NullT -> out.k = "num" /\ out.n = Zero /\ rc = "ok"
                          [] v.t = DoubleT -> out = v /\ rc = "ok"
                          [] Numeric(v) -> /\ out.k = "num" /\ out.n[1] = v.n[1] /\ IsDouble(out.n)
                                           /\ IF IsDouble(v.n) THEN out.n = v.n /\ rc = "ok" ELSE Near(out.n, v.n) /\ rc = "overflow"
                          [] OTHER -> out.k = "num" /\ out.n = Zero /\ rc # "ok"
\* ------------------------------------------------------------------ colours
Colour(v) == v.t \in {0, 1, 2}
Clamp(x, m) == IF x < 0 THEN 0 ELSE IF x > m THEN m ELSE x
\* |256-or-65536 level - q/1024 of full| : rounding to the nearest level (either one on a tie)
Rounded(q, m, out) == LET x == Clamp(q, 1024) IN 2 * (out * 1024 - x * m) <= 1034 /\ 2 * (x * m - out * 1024) <= 1034   \* (single precision)
All4(P(_)) == \A i \in 1..4 : P(i)
ToRgba32(v, out) == CASE v.t = 1 -> out = v.c
                      [] v.t = 2 -> All4(LAMBDA i : out[i] = v.c[i] \div 256)
                      [] v.t = 0 -> All4(LAMBDA i : Rounded(v.c[i], 255, out[i]))
ToRgba64(v, out) == CASE v.t = 2 -> out = v.c
                      [] v.t = 1 -> All4(LAMBDA i : out[i] = v.c[i] * 257)
                      [] v.t = 0 -> All4(LAMBDA i : Rounded(v.c[i], 65535, out[i]))
Within(a, b, d) == a - b <= d /\ b - a <= d
ToRgba(v, out, out2) == CASE v.t = 0 -> out = v.c
                          [] v.t = 1 -> All4(LAMBDA i : Within(out2[i], v.c[i] * 257 * 64, 1))
                          [] v.t = 2 -> All4(LAMBDA i : Within(out2[i], v.c[i] * 64, 1))
\* the colour in 1/65535 units, when it is a whole number of them
Level(v, i) == CASE v.t = 1 -> v.c[i] * 257 [] v.t = 2 -> v.c[i] [] v.t = 0 -> IF v.c[i] = 0 THEN 0 ELSE IF v.c[i] = 1024 THEN 65535 ELSE -1
\* ------------------------------------------------------------------ equality
NumEq(a, b) == a.k = b.k /\ a.n = b.n
Eq(a, b) == IF Numeric(a) /\ Numeric(b) THEN NumEq(a, b) ELSE a = b
\* comparison of a variant with a plain value: colours are compared after conversion
EqV(a, v) == IF Colour(v) THEN Colour(a) /\ (IF a.t = v.t THEN a.c = v.c ELSE All4(LAMBDA i : Level(a, i) = Level(v, i))) ELSE Eq(a, v)
DefaultOf(ty) == CASE ty \in {NullT, 6, 7, 8, 21, 107, 127} -> Null   \* no such type of object
                   [] ty \in BoolT..DoubleT -> Val(ty, "num", Zero, <<>>)
                   [] ty \in 0..2 -> Val(ty, "x", Zero, <<0, 0, 0, 0>>)
                   [] OTHER -> Val(ty, "x", Zero, <<0>>)
=======================================================================================
