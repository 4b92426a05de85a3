------------------------------- MODULE CanvasSpec --------------------------------
(* A drawing context over a small image: state, clip, and what every pixel-aligned operation does to every pixel.
   Pixels are integers (signed 32-bit ARGB, alpha alone for A8); a drawing operation is the pointwise application of the
   composition operator to the covered pixels inside the clip. *)
EXTENDS Integers, Sequences
Force(q) == SubSeq(q, 1, Len(q))
PRGB == 1
XRGB == 2
A8 == 3
SrcOver == 0
SrcCopy == 1
ClearOp == 11
DstCopy == 6
Div255(x) == (2 * x + 255) \div 510
Chan(p, i) == (p \div (CASE i = 1 -> 16777216 [] i = 2 -> 65536 [] i = 3 -> 256 [] OTHER -> 1)) % 256
Unpack(p) == <<(p \div 16777216) % 256, (p \div 65536) % 256, (p \div 256) % 256, p % 256>>
Pack(t) == (IF t[1] >= 128 THEN t[1] - 256 ELSE t[1]) * 16777216 + t[2] * 65536 + t[3] * 256 + t[4]
\* A stored pixel as components, and back.
Load(f, p) == IF f = A8 THEN <<p, p, p, p>> ELSE IF f = XRGB THEN <<255, (p \div 65536) % 256, (p \div 256) % 256, p % 256>> ELSE Unpack(p)
Store(f, c) == IF f = A8 THEN c[1] ELSE IF f = XRGB THEN Pack(<<255, c[2], c[3], c[4]>>) ELSE Pack(c)
Premultiply(c) == <<c[1], Div255(c[2] * c[1]), Div255(c[3] * c[1]), Div255(c[4] * c[1])>>

(* Composition of source s over destination d, both premultiplied, with mask m in 0..255. *)
Over(d, s, m) == LET a == Div255(s[1] * m) IN [i \in 1..4 |-> Div255(s[i] * m) + Div255(d[i] * (255 - a))]
Copy(d, s, m) == IF m = 255 THEN s ELSE [i \in 1..4 |-> Div255(d[i] * (255 - m) + s[i] * m)]
Exact(op) == op \in {SrcOver, SrcCopy, ClearOp, DstCopy}
Compose(op, d, s, m) == CASE op = SrcOver -> Over(d, s, m)
                          [] op = SrcCopy -> Copy(d, s, m)
                          [] op = ClearOp -> Copy(d, <<0, 0, 0, 0>>, m)
                          [] OTHER -> d
PutPixel(f, op, d, s, m) == Store(f, Compose(op, Load(f, d), s, m))

(* Matrices <<m00, m01, m10, m11, m20, m21>>: only scaled signed permutations. *)
Id == <<1, 0, 0, 1, 0, 0>>
MulM(a, b) == <<a[1]*b[1]+a[2]*b[3], a[1]*b[2]+a[2]*b[4], a[3]*b[1]+a[4]*b[3], a[3]*b[2]+a[4]*b[4], a[5]*b[1]+a[6]*b[3]+b[5], a[5]*b[2]+a[6]*b[4]+b[6]>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
MapX(m, x, y) == x * m[1] + y * m[3] + m[5]
MapY(m, x, y) == x * m[2] + y * m[4] + m[6]
\* The box a user-space box is mapped to.
MapBox(m, b) == LET x0 == MapX(m, b[1], b[2]) y0 == MapY(m, b[1], b[2]) x1 == MapX(m, b[3], b[4]) y1 == MapY(m, b[3], b[4])
                IN <<Min(x0, x1), Min(y0, y1), Max(x0, x1), Max(y0, y1)>>
NoBox == <<0, 0, 0, 0>>
Meet(a, b) == LET r == <<Max(a[1], b[1]), Max(a[2], b[2]), Min(a[3], b[3]), Min(a[4], b[4])>> IN IF r[1] >= r[3] \/ r[2] >= r[4] THEN NoBox ELSE r
Within(b, x, y) == x >= b[1] /\ x < b[3] /\ y >= b[2] /\ y < b[4]
\* Texel that covers the centre of pixel (x, y) when the image is placed by m.
Unmap(m, x, y) == LET u == 2 * (x - m[5]) + 1 v == 2 * (y - m[6]) + 1 IN
  <<IF m[1] > 0 THEN u \div (2 * m[1]) ELSE (0 - u) \div (2 * (0 - m[1])), IF m[4] > 0 THEN v \div (2 * m[4]) ELSE (0 - v) \div (2 * (0 - m[4]))>>
\* The permuted case: x1 = y * m10 + m20, y1 = x * m01 + m21.
UnmapP(m, x, y) == LET u == 2 * (x - m[5]) + 1 v == 2 * (y - m[6]) + 1 IN
  <<IF m[2] > 0 THEN v \div (2 * m[2]) ELSE (0 - v) \div (2 * (0 - m[2])), IF m[3] > 0 THEN u \div (2 * m[3]) ELSE (0 - u) \div (2 * (0 - m[3]))>>
Texel(m, x, y) == IF m[1] # 0 THEN Unmap(m, x, y) ELSE UnmapP(m, x, y)

(* Extend modes per axis: 0 pad, 1 repeat, 2 reflect. *)
ExtX(e) == CASE e \in {0, 3, 4} -> 0 [] e \in {1, 5, 6} -> 1 [] OTHER -> 2
ExtY(e) == CASE e \in {0, 5, 7} -> 0 [] e \in {1, 3, 8} -> 1 [] OTHER -> 2
Extend(k, v, n) == CASE k = 0 -> IF v < 0 THEN 0 ELSE IF v >= n THEN n - 1 ELSE v
                     [] k = 1 -> v % n
                     [] OTHER -> LET r == v % (2 * n) IN IF r < n THEN r ELSE 2 * n - 1 - r
TexelOf(im, x, y) == Load(im.f, im.px[y * im.w + x + 1])

(* Styles: [t |-> 0] nothing, [t |-> 1, c] a colour, [t |-> 2, im, area, ext, m] a pattern with its final placement. *)
Sample(s, x, y) == IF s.t = 1 THEN s.p
                   ELSE LET q == Texel(s.m, x, y) IN TexelOf(s.im, s.area[1] + Extend(ExtX(s.ext), q[1], s.area[3]), s.area[2] + Extend(ExtY(s.ext), q[2], s.area[4]))

RECURSIVE Winding(_, _, _, _)
Winding(sh, i, x, y) == IF i > Len(sh) THEN 0 ELSE (IF Within(sh[i], x, y) THEN sh[i][5] ELSE 0) + Winding(sh, i + 1, x, y)
Covered(sh, rule, x, y) == LET n == Winding(sh, 1, x, y) IN IF rule = 0 THEN n # 0 ELSE n % 2 = 1
Alpha(g, a) == Div255(g * a)
=================================================================================
