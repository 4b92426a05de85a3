----------------------------- MODULE RandomSpec -----------------------------
(* Random generators (C29): the state is a pair of 64-bit words, seeded by splitmix64, advanced by xorshift128+ (23, 18, 5). *)
EXTENDS Word64
C1 == <<\h15, \h7C, \h4A, \h7F, \hB9, \h79, \h37, \h9E>>
C2 == <<\hB9, \hE5, \hE4, \h1C, \h6D, \h47, \h58, \hBF>>
C3 == <<\hEB, \h11, \h31, \h13, \hBB, \h49, \hD0, \h94>>
CZ == <<\hA0, \h3F, \h16, \h1D, \hE7, \h2B, \h0A, \h1F>>
Mix(s) == LET a == MulW(XorW(s, Shr(s, 30)), C2)
              b == MulW(XorW(a, Shr(a, 27)), C3)
              c == XorW(b, Shr(b, 31)) IN IF IsZero(c) THEN CZ ELSE c
Seed(s) == LET s1 == AddW(s, C1) s2 == AddW(s1, C1) IN <<Mix(s1), Mix(s2)>>
Next(g) == LET x1 == XorW(g[1], Shl(g[1], 23))
               y  == g[2]
               y1 == XorW(y, Shr(y, 5))
               x2 == XorW(x1, Shr(x1, 18)) IN <<y1, XorW(x2, y1)>>
Out(g) == LET n == Next(g) IN AddW(n[1], n[2])
Out32(g) == SubSeq(Out(g), 5, 8)
\* A double in [0, 1) is the upper 52 bits divided by 2^52.
OutF(g) == Shr(Out(g), 12)
=============================================================================
