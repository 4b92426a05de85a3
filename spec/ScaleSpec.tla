----------------------------- MODULE ScaleSpec -----------------------------
(* C33. Scaling is separable: every output row (column) is a weighted mean of source pixels whose weights are the filter's
   values at the distances, stretched when the image shrinks; outside the image the edge pixels repeat.
   Everything is integer: the distance of source pixel j from the centre of output pixel i, in units of the filter's radius-one
   distance, is Dist / Unit. Weights are normalised to a sum of about K. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
K == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Nearest == 1
Bilinear == 2
Bicubic == 3
Lanczos == 4
Unit(S, D) == 2 * MaxOf(S, D)
Dist(S, D, i, j) == Abs(2 * D * j - (2 * i + 1) * S + D)
(* sin(pi t) / (pi t) for 0 <= t <= 2, t and the result in units of 1 / K. *)
SincLow(t) == LET u == (t * t) \div K IN
  K - (u * (6738 - (u * (3325 - (u * (781 - (u * (107 - (u * 10) \div K)) \div K)) \div K)) \div K)) \div K
Sinc(t) == IF t <= K THEN SincLow(t) ELSE -((SincLow(t - K) * (t - K)) \div t)
(* The filter at distance T / N. *)
Value(flt, T, N) ==
  CASE flt = Nearest -> IF 2 * T <= N THEN 1 ELSE 0
    [] flt = Bilinear -> MaxOf(0, N - T)
    [] flt = Bicubic -> IF T < N THEN (3 * T * T * T - 6 * T * T * N + 4 * N * N * N) \div 2
                        ELSE IF T < 2 * N THEN ((2 * N - T) * (2 * N - T) * (2 * N - T)) \div 2 ELSE 0
    [] OTHER -> IF T > 2 * N THEN 0 ELSE LET x == (T * K) \div N IN (Sinc(x) * Sinc(x \div 2)) \div K
Reach(flt) == IF flt \in {Bicubic, Lanczos} THEN 2 ELSE 1
(* The pixels (perhaps outside the image) whose weight is not zero. *)
Support(flt, S, D, i) ==
  LET N == Unit(S, D) c == ((2 * i + 1) * S - D) \div (2 * D)
      r == (Reach(flt) * N) \div (2 * D) + 2 IN
  {j \in (c - r)..(c + r) : Dist(S, D, i, j) <= Reach(flt) * N /\ Value(flt, Dist(S, D, i, j), N) # 0}
(* Whether rounding may decide which pixel is the nearest, or whether it belongs to the mean. *)
Tie(flt, S, D, i) == flt = Nearest /\ \E j \in Support(flt, S, D, i) : 2 * Dist(S, D, i, j) = Unit(S, D)
(* <<source pixel, weight>> with the edges repeated, and the number of weights. *)
Taps(flt, S, D, i) ==
  LET N == Unit(S, D) J == Support(flt, S, D, i)
      raw == TLCEval(SetToSeq({<<j, Value(flt, Dist(S, D, i, j), N)>> : j \in J}))
      sum == FoldLeft(LAMBDA acc, x : acc + x[2], 0, raw) IN
  TLCEval([k \in 1..Len(raw) |-> <<Clamp(raw[k][1], 0, S - 1), (raw[k][2] * K) \div sum>>])
Total(taps) == FoldLeft(LAMBDA acc, x : acc + x[2], 0, taps)
(* A pass over one line: v[j + 1] are the values (any scale), the result has the same scale. *)
Mix(taps, v) == FoldLeft(LAMBDA acc, x : acc + x[2] * v[x[1] + 1], 0, taps) \div Total(taps)
=============================================================================
