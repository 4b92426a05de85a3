--------------------------------- MODULE PathSpec ----------------------------------
(* Paths as sequences of vertices <<command, x, y>> (property C06).  Coordinates are integers in quarter units.       *)
EXTENDS Integers, Sequences, FiniteSets
MOVE == 0  ON == 1  QUAD == 2  CONIC == 3  CUBIC == 4  CLOSE == 5  WEIGHT == 6
N == 1073741824          \* "not a number"
Slice(q, i, j) == IF i >= j THEN <<>> ELSE SubSeq(q, i + 1, j)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
V(c, p) == <<c, p[1], p[2]>>
Shut == <<CLOSE, N, N>>
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
\* m = <<xx, xy, yx, yy, tx, ty>>; weights are not points.
Map1(m, v) == IF v[1] = WEIGHT \/ v[2] = N THEN v ELSE <<v[1], v[2] * m[1] + v[3] * m[3] + m[5], v[2] * m[2] + v[3] * m[4] + m[6]>>
MapAll(m, q) == [i \in 1..Len(q) |-> Map1(m, q[i])]
MapRange(m, q, a, b) == [i \in 1..Len(q) |-> IF a < i /\ i <= b THEN Map1(m, q[i]) ELSE q[i]]
Open(q) == q # <<>> /\ q[Len(q)][1] < CLOSE
\* Control point of a smooth curve: the reflection of the previous one when the previous segment is of the same kind.
Reflect(q, c) == LET p == q[Len(q)] IN IF Len(q) >= 2 /\ q[Len(q) - 1][1] = c THEN <<2 * p[2] - q[Len(q) - 1][2], 2 * p[3] - q[Len(q) - 1][3]>> ELSE <<p[2], p[3]>>
\* Figures given by points.
Poly(ps, closed) == IF ps = <<>> THEN <<>> ELSE [i \in 1..Len(ps) |-> V(IF i = 1 THEN MOVE ELSE ON, ps[i])] \o IF closed THEN <<Shut>> ELSE <<>>
Figure(ps, closed, ccw) == Poly(IF ccw THEN Rev(ps) ELSE ps, closed)
BoxCorners(p, z, ccw) == IF ccw THEN <<p, <<p[1], z[2]>>, z, <<z[1], p[2]>>>> ELSE <<p, <<z[1], p[2]>>, z, <<p[1], z[2]>>>>
Box(p, z, ccw) == Poly(BoxCorners(p, z, ccw), TRUE)
RECURSIVE Boxes(_, _)
Boxes(bs, ccw) == IF bs = <<>> THEN <<>> ELSE (IF bs[1][1][1] < bs[1][2][1] /\ bs[1][1][2] < bs[1][2][2] THEN Box(bs[1][1], bs[1][2], ccw) ELSE <<>>) \o Boxes(Tail(bs), ccw)
AllBoxes(bs, ccw) == Boxes(IF ccw THEN Rev(bs) ELSE bs, ccw)

\* Splitting into figures: a figure starts with MOVE and ends before the next MOVE or with CLOSE.
Starts(q) == {i \in 1..Len(q) : q[i][1] = MOVE}
Max_(S) == CHOOSE x \in S : \A y \in S : x >= y
Min_(S) == CHOOSE x \in S : \A y \in S : x <= y
Figured(q) == q = <<>> \/ (q[1][1] = MOVE /\ \A i \in 1..Len(q) : q[i][1] = CLOSE => i = Len(q) \/ q[i + 1][1] = MOVE)
FigStart(q, i) == Max_({s \in Starts(q) : s <= i})
FigEnd(q, i) == LET nx == {s \in Starts(q) : s > i} IN IF nx = {} THEN Len(q) ELSE Min_(nx) - 1
\* Structure of curves.  "dc": commands inside of a curve are not what they should be, nothing is claimed.
RECURSIVE Parse(_, _, _)
Parse(q, i, has) ==
  IF i > Len(q) THEN "ok"
  ELSE LET c == q[i][1] IN
       CASE c = MOVE -> Parse(q, i + 1, TRUE)
         [] c = ON -> IF has THEN Parse(q, i + 1, TRUE) ELSE "bad"
         [] c = QUAD -> IF ~has \/ i + 1 > Len(q) THEN "bad" ELSE IF q[i + 1][1] # ON THEN "dc" ELSE Parse(q, i + 2, TRUE)
         [] c = CONIC -> IF ~has \/ i + 2 > Len(q) THEN "bad" ELSE IF q[i + 1][1] # WEIGHT \/ q[i + 2][1] # ON THEN "dc" ELSE Parse(q, i + 3, TRUE)
         [] c = CUBIC -> IF ~has \/ i + 2 > Len(q) THEN "bad" ELSE IF q[i + 1][1] # CUBIC \/ q[i + 2][1] # ON THEN "dc" ELSE Parse(q, i + 3, TRUE)
         [] c = CLOSE -> Parse(q, i + 1, FALSE)
         [] OTHER -> "bad"
Finite(q) == \A i \in 1..Len(q) : q[i][1] \in {CLOSE, WEIGHT} \/ (q[i][2] # N /\ q[i][3] # N)
\* Reversal is defined for well-formed figures that are more than a closed point.
Reversible(q) == Figured(q) /\ Parse(q, 1, FALSE) = "ok" /\ Finite(q) /\ \A i \in 1..Len(q) : q[i][1] = CLOSE => q[i - 1][1] # MOVE /\ q[i] = Shut
RevFigure(f) ==
  LET closed == f[Len(f)][1] = CLOSE
      p == IF closed THEN SubSeq(f, 1, Len(f) - 1) ELSE f
      n == Len(p)
      \* weights stay behind their control points
      cmd(i) == LET k == n + 1 - i IN IF i = 1 THEN MOVE ELSE IF i = n THEN ON ELSE IF p[k][1] = WEIGHT THEN CONIC ELSE IF p[k][1] = CONIC THEN WEIGHT ELSE p[k][1]
      src(i) == LET k == n + 1 - i IN IF p[k][1] = WEIGHT THEN k - 1 ELSE IF p[k][1] = CONIC THEN k + 1 ELSE k
  IN [i \in 1..n |-> <<cmd(i), p[src(i)][2], p[src(i)][3]>>] \o IF closed THEN <<Shut>> ELSE <<>>
RECURSIVE Reversed(_, _)
Reversed(q, sep) == IF q = <<>> THEN <<>>
                    ELSE LET k == FigEnd(q, 1) f == RevFigure(SubSeq(q, 1, k)) r == Reversed(SubSeq(q, k + 1, Len(q)), sep) IN IF sep THEN f \o r ELSE r \o f
\* Vertices that are points, and the last vertex (start of the figure when closed).
Points(q) == {i \in 1..Len(q) : q[i][1] \notin {CLOSE, WEIGHT} /\ q[i][2] # N /\ q[i][3] # N}
LastVertex(q) == IF q = <<>> THEN 0 ELSE IF q[Len(q)][1] # CLOSE THEN Len(q)
                 ELSE LET b == {i \in 1..Len(q) - 1 : q[i][1] \in {MOVE, CLOSE}} IN IF b = {} \/ q[Max_(b)][1] = CLOSE THEN 0 ELSE Max_(b)
Box4(X, Y) == <<Min_(X), Min_(Y), Max_(X), Max_(Y)>>
ControlBox(q) == Box4({q[i][2] : i \in Points(q)}, {q[i][3] : i \in Points(q)})
Count(q, c) == Cardinality({i \in 1..Len(q) : q[i][1] = c})
Flags(q) == (IF Points(q) = {} THEN 1 ELSE 0) + (IF Count(q, MOVE) > 1 THEN 2 ELSE 0) + (IF Count(q, QUAD) > 0 THEN 4 ELSE 0) + (IF Count(q, CONIC) > 0 THEN 8 ELSE 0) + (IF Count(q, CUBIC) > 0 THEN 16 ELSE 0)
\* Coordinate d (2 or 3) of curve points, in 1/64 units (16 times the quarter units).
OnPts(q, d) == {16 * q[i][d] : i \in {i \in Points(q) : q[i][1] \in {MOVE, ON}}}
QuadExt(a, b, c) == LET den == a - 2 * b + c IN IF den # 0 /\ ((0 < a - b /\ a - b < den) \/ (den < a - b /\ a - b < 0)) THEN {16 * a - ((a - b) * (a - b) * 16) \div den} ELSE {}
Exts(q, d) == UNION {QuadExt(q[i - 1][d], q[i][d], q[i + 1][d]) : i \in {i \in 2..Len(q) - 1 : q[i][1] = QUAD}}
Mids(q, d) == {2 * (q[i - 1][d] + 3 * q[i][d] + 3 * q[i + 1][d] + q[i + 2][d]) : i \in {i \in 2..Len(q) - 2 : q[i][1] = CUBIC /\ q[i + 1][1] = CUBIC}}
          \cup {(16 * (2 * q[i - 1][d] + q[i + 1][2] * q[i][d] + 2 * q[i + 2][d])) \div (4 + q[i + 1][2]) : i \in {i \in 2..Len(q) - 2 : q[i][1] = CONIC}}
OnlyQuads(q) == \A i \in 1..Len(q) : q[i][1] \in {MOVE, ON, QUAD, CLOSE}
Within(S, lo, hi) == \A v \in S : lo <= v + 1 /\ v <= hi + 1
Near(a, b) == a - b \in -1..1
BoundsOK(q, d, lo, hi) ==
  LET on == OnPts(q, d) ext == Exts(q, d) cb == ControlBox(q) IN
  /\ Within(on, lo, hi) /\ Within(ext, lo, hi) /\ Within(Mids(q, d), lo, hi)
  /\ lo + 1 >= 16 * cb[d - 1] /\ hi <= 16 * cb[d + 1] + 1
  /\ (OnlyQuads(q) => Near(lo, Min_(on \cup ext)) /\ Near(hi, Max_(on \cup ext)))
====================================================================================
