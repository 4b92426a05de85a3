---------------------------- MODULE PixelFormat ----------------------------
(* Pixel formats: which descriptions are valid, what the bits of a pixel mean, and what a conversion between two
   formats does to a colour. Components are reduced or expanded to 8 bits, expansion repeats the bits. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
P2 == [n \in 0..24 |-> 2^n]
Has(f, bit) == (f.flags \div bit) % 2 = 1
IsRgb(f) == Has(f, 1)
IsAlpha(f) == Has(f, 2)
IsLum(f) == Has(f, 4)
IsIndexed(f) == Has(f, 16)
IsPre(f) == Has(f, 256) /\ IsAlpha(f)
IsSwapped(f) == Has(f, 512)
Used(f) == CASE f.flags % 8 = 1 -> {1, 2, 3} [] f.flags % 8 = 2 -> {4} [] f.flags % 8 = 3 -> 1..4 [] f.flags % 8 = 4 -> {1, 2, 3} [] f.flags % 8 = 6 -> 1..4 [] OTHER -> {}
Overlap(f, i, j) == f.sh[i] < f.sh[j] + f.sz[j] /\ f.sh[j] < f.sh[i] + f.sz[i]
Valid(f) ==
  /\ f.depth \in {1, 2, 4, 8, 16, 24, 32}
  /\ IF IsIndexed(f) THEN f.depth <= 8 /\ Len(f.pal) > 0
     ELSE /\ Used(f) # {}
          /\ \A i \in 1..4 : IF i \in Used(f) THEN f.sz[i] \in 1..16 /\ f.sh[i] + f.sz[i] <= f.depth ELSE f.sz[i] = 0 /\ f.sh[i] = 0
          /\ 4 \in Used(f) => \A i \in Used(f) \ {4} : ~Overlap(f, i, 4)
          /\ IF IsLum(f) THEN \A i \in {2, 3} : f.sz[i] = f.sz[1] /\ f.sh[i] = f.sh[1]
             ELSE \A i, j \in Used(f) : i # j => ~Overlap(f, i, j)
At(b, k) == IF k < Len(b) THEN b[k + 1] ELSE 0
Field(b, sh, sz) == LET k == sh \div 8 IN ((At(b, k) + 256 * At(b, k + 1) + 65536 * At(b, k + 2)) \div P2[sh % 8]) % P2[sz]
Mul == <<255, 85, 73, 17, 33, 65, 129>>
Div == <<1, 1, 2, 1, 4, 16, 64>>
To8(v, sz) == IF sz >= 8 THEN v \div P2[sz - 8] ELSE (v * Mul[sz]) \div Div[sz]
From8(c, sz) == IF sz <= 8 THEN c \div P2[8 - sz] ELSE (c * 257) \div P2[16 - sz]
Ordered(f, b) == IF IsSwapped(f) THEN Reverse(b) ELSE b
Comp(f, b, i) == To8(Field(b, f.sh[i], f.sz[i]), f.sz[i])
\* ---- colours: <<r, g, b, a, kind>>, kind of alpha: 0 none, 1 straight, 2 premultiplied ----
Kind(f) == IF ~IsAlpha(f) THEN 0 ELSE IF IsPre(f) THEN 2 ELSE 1
AlphaOnly(f) == f.flags % 8 = 2
Load(f, b0) == LET b == Ordered(f, b0) IN
  IF AlphaOnly(f) THEN <<255, 255, 255, Comp(f, b, 4), 1>>
  ELSE <<Comp(f, b, 1), Comp(f, b, 2), Comp(f, b, 3), IF IsAlpha(f) THEN Comp(f, b, 4) ELSE 255, Kind(f)>>
Index(f, row, x) == LET per == 8 \div f.depth IN (row[(x \div per) + 1] \div P2[(per - 1 - (x % per)) * f.depth]) % P2[f.depth]
Pixel(f, row, x) ==
  IF IsIndexed(f) THEN LET c == f.pal[Index(f, row, x) + 1] IN <<c[1], c[2], c[3], IF IsAlpha(f) THEN c[4] ELSE 255, IF AlphaOnly(f) THEN 1 ELSE Kind(f)>>
  ELSE Load(f, SubSeq(row, x * (f.depth \div 8) + 1, (x + 1) * (f.depth \div 8)))
MulDiv(c, a) == (2 * c * a + 255) \div 510
Unmul(c, a) == IF a = 0 THEN 0 ELSE (2 * 255 * c + a) \div (2 * a)
\* The colour in the terms of the destination: straight (1), or premultiplied / over nothing (0, 2).
Convert(kind, c) ==
  IF c[5] = 0 THEN c
  ELSE IF kind = 1 THEN (IF c[5] = 1 THEN c ELSE <<Unmul(c[1], c[4]), Unmul(c[2], c[4]), Unmul(c[3], c[4]), c[4], 1>>)
  ELSE IF c[5] = 2 THEN c ELSE <<MulDiv(c[1], c[4]), MulDiv(c[2], c[4]), MulDiv(c[3], c[4]), c[4], 2>>
\* A premultiplied colour greater than its alpha is no colour.
Proper(c) == c[5] = 2 => (c[1] <= c[4] /\ c[2] <= c[4] /\ c[3] <= c[4])
StoredAs(f, b0, c) == LET b == Ordered(f, b0) IN \A i \in Used(f) : Field(b, f.sh[i], f.sz[i]) = From8(c[i], f.sz[i])
Part(row, n, x) == SubSeq(row, n * x + 1, n * (x + 1))
SameFields(d, s, b, q) == \A i \in Used(d) : Field(Ordered(d, b), d.sh[i], d.sz[i]) = Field(Ordered(s, q), s.sh[i], s.sz[i])
\* Pixels of the same components are copied; otherwise they go through 8 bits per component (and may do so, if only
\* the layout differs).
ConvertedPixel(d, s, drow, srow, x) ==
  LET c == Pixel(s, srow, x)
      n == d.depth \div 8
      m == s.depth \div 8
      alike == ~IsIndexed(s) /\ d.flags % 8 = s.flags % 8 /\ d.sz = s.sz /\ Kind(d) = Kind(s) IN
  IF alike /\ d.sh = s.sh /\ d.depth = s.depth /\ IsSwapped(d) = IsSwapped(s) THEN SameFields(d, s, Part(drow, n, x), Part(srow, m, x))
  ELSE \/ (Kind(d) = 1 => Proper(c)) => StoredAs(d, Part(drow, n, x), Convert(Kind(d), c))
       \/ alike /\ SameFields(d, s, Part(drow, n, x), Part(srow, m, x))
\* ---- which pairs of formats a converter has to support, and which results are defined here ----
Bytes8(f) == \A i \in Used(f) : f.sz[i] = 8 /\ f.sh[i] % 8 = 0
Color(f) == IsRgb(f) /\ ~IsIndexed(f) /\ f.depth >= 16
Supported(d, s) ==
  /\ ~IsIndexed(d)
  /\ \/ Color(d) /\ Color(s)
     \/ Color(d) /\ IsIndexed(s) /\ IsRgb(s)
     \/ Color(d) /\ d.depth = 32 /\ Bytes8(d) /\ ~IsIndexed(s) /\ s.depth = 8 /\ s.flags % 8 \in {2, 4} /\ Bytes8(s)
     \/ ~IsIndexed(d) /\ AlphaOnly(d) /\ d.depth = 8 /\ d.sz[4] = 8 /\ Color(s) /\ s.depth = 32 /\ IsAlpha(s) /\ Bytes8(s)
     \/ ~IsIndexed(d) /\ AlphaOnly(d) /\ d.depth = 8 /\ d.sz[4] = 8 /\ IsIndexed(s) /\ IsAlpha(s)
=============================================================================
