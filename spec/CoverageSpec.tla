------------------------------ MODULE CoverageSpec -------------------------------
(* Area coverage of polygons, in 1/256 pixel.  A polygon is a sequence of points, closed implicitly.  The coverage of a pixel is
   the signed area of the pixel that lies to the right of the edges, folded by the fill rule.  Products stay below 2^31. *)
EXTENDS Integers, Sequences
Abs(v) == IF v < 0 THEN -v ELSE v
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Clamp(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
\* Division rounded to nearest.
Div(a, b) == (a + b \div 2) \div b
Edges(q) == [i \in 1..Len(q) |-> LET n == IF i = Len(q) THEN 1 ELSE i + 1 IN <<q[i][1], q[i][2], q[n][1], q[n][2]>>]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Edges(Head(s)) \o Flat(Tail(s))
XAt(e, y) == IF e[1] = e[3] THEN e[1] ELSE e[1] + Div((y - e[2]) * (e[3] - e[1]), e[4] - e[2])
\* The part of an edge within pixel row r: <<sign, height, x at its top, x at its bottom, dx of the whole edge>>.
Part(e, r) == LET up == e[4] < e[2] f == IF up THEN <<e[3], e[4], e[1], e[2]>> ELSE e
                  a == Max(f[2], 256 * r) b == Min(f[4], 256 * (r + 1)) IN
              IF a >= b THEN <<0, 0, 0, 0, 0>> ELSE <<IF up THEN -1 ELSE 1, b - a, XAt(f, a), XAt(f, b), f[3] - f[1]>>
Parts(es, r) == SelectSeq([i \in 1..Len(es) |-> Part(es[i], r)], LAMBDA p : p[1] # 0)
P(z) == IF z <= 0 THEN 0 ELSE IF z <= 256 THEN (z * z) \div 2 ELSE 256 * z - 32768
\* 16 * mean width of pixel column c that lies right of the edge part, 0..4096.
Right(p, c) == LET z == 256 * (c + 1) IN IF p[3] = p[4] THEN 16 * Clamp(z - p[3], 0, 256)
               ELSE IF Min(p[3], p[4]) >= z THEN 0 ELSE IF Max(p[3], p[4]) <= z - 256 THEN 4096
               ELSE (16 * (P(z - p[3]) - P(z - p[4]))) \div (p[4] - p[3])
RECURSIVE Sum(_, _, _)
Sum(ps, i, c) == IF i > Len(ps) THEN 0 ELSE ps[i][1] * ps[i][2] * Right(ps[i], c) + Sum(ps, i + 1, c)
One == 1048576
\* Folds the signed area by the fill rule (0: non-zero, 1: even-odd).
Fold(a, rule) == IF rule = 0 THEN Min(Abs(a), One) ELSE LET m == Abs(a) % (2 * One) IN IF m > One THEN 2 * One - m ELSE m
Slanted(ps, c) == Len(SelectSeq(ps, LAMBDA p : p[5] # 0 /\ Min(p[3], p[4]) <= 256 * (c + 1) + 4 /\ Max(p[3], p[4]) >= 256 * c - 4))
\* Whether alpha is the coverage of the area; slanted edges are quantised to 1/256 pixel.
AlphaIs(alpha, area, slanted) == Abs(alpha * 4112 - area) <= 4112 * (2 + 2 * slanted)
==================================================================================
