------------------------------- MODULE Word64 -------------------------------
(* Unsigned 64-bit numbers as 8 bytes, least significant first. *)
EXTENDS Integers, Sequences, Bitwise
Forced(q) == SubSeq(q, 1, Len(q))
XorW(a, b) == Forced([i \in 1..8 |-> a[i] ^^ b[i]])
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) == IF i > 8 THEN <<>> ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o AddC(a, b, i + 1, s \div 256)
AddW(a, b) == AddC(a, b, 1, 0)
RECURSIVE SumProd(_, _, _, _)
SumProd(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k - i + 1] + SumProd(a, b, k, i + 1)
RECURSIVE MulC(_, _, _, _)
MulC(a, b, k, c) == IF k > 8 THEN <<>> ELSE LET s == SumProd(a, b, k, 1) + c IN <<s % 256>> \o MulC(a, b, k + 1, s \div 256)
MulW(a, b) == MulC(a, b, 1, 0)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
At(a, i) == IF i \in 1..8 THEN a[i] ELSE 0
\* Shifts: byte i of the result takes bits of two neighbouring bytes of the operand.
Shl(a, n) == LET q == n \div 8 r == n % 8 IN
             Forced([i \in 1..8 |-> ((At(a, i - q) * Pow2[r + 1]) % 256) + (At(a, i - q - 1) \div Pow2[9 - r])])
Shr(a, n) == LET q == n \div 8 r == n % 8 IN
             Forced([i \in 1..8 |-> (At(a, i + q) \div Pow2[r + 1]) + ((At(a, i + q + 1) * Pow2[9 - r]) % 256)])
IsZero(a) == \A i \in 1..8 : a[i] = 0
=============================================================================
