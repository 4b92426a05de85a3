------------------------------ MODULE GeometrySpec -------------------------------
(* Winding numbers and distances of figures made of lines, quadratic, conic and cubic curves.  Control points are integers;
   everything is computed in 1/16 units.  Curves are replaced by 16 chords, points close to a chord are undecided. *)
EXTENDS Integers, Sequences
Abs(v) == IF v < 0 THEN -v ELSE v
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Div(a, b) == (a + b \div 2) \div b
MOVE == 0 ON == 1 QUAD == 2 CONIC == 3 CUBIC == 4 CLOSE == 5
QuadAt(a, b, c, i) == Div(((16 - i) * (16 - i) * a + 2 * i * (16 - i) * b + i * i * c) * 16, 256)
CubicAt(a, b, c, d, i) == Div(((16 - i) * (16 - i) * (16 - i) * a + 3 * i * (16 - i) * (16 - i) * b + 3 * i * i * (16 - i) * c + i * i * i * d) * 16, 4096)
\* w: weight in quarters
ConicAt(a, b, c, w, i) == Div((4 * (16 - i) * (16 - i) * a + 2 * w * i * (16 - i) * b + 4 * i * i * c) * 16, 4 * (16 - i) * (16 - i) + 2 * w * i * (16 - i) + 4 * i * i)
Pt(p) == <<16 * p[1], 16 * p[2]>>
\* Chords (x0, y0, x1, y1) of one segment that starts at p; a segment is <<kind, weight, points...>>.
Chords(p, s) ==
  CASE s[1] = ON -> <<Pt(p) \o Pt(s[3])>>
    [] s[1] = QUAD -> [i \in 1..16 |-> <<QuadAt(p[1], s[3][1], s[4][1], i - 1), QuadAt(p[2], s[3][2], s[4][2], i - 1), QuadAt(p[1], s[3][1], s[4][1], i), QuadAt(p[2], s[3][2], s[4][2], i)>>]
    [] s[1] = CONIC -> [i \in 1..16 |-> <<ConicAt(p[1], s[3][1], s[4][1], s[2], i - 1), ConicAt(p[2], s[3][2], s[4][2], s[2], i - 1), ConicAt(p[1], s[3][1], s[4][1], s[2], i), ConicAt(p[2], s[3][2], s[4][2], s[2], i)>>]
    [] s[1] = CUBIC -> [i \in 1..16 |-> <<CubicAt(p[1], s[3][1], s[4][1], s[5][1], i - 1), CubicAt(p[2], s[3][2], s[4][2], s[5][2], i - 1), CubicAt(p[1], s[3][1], s[4][1], s[5][1], i), CubicAt(p[2], s[3][2], s[4][2], s[5][2], i)>>]
End(s) == s[Len(s)]
\* A figure is <<start, segments, closed>>.  Pieces of a figure: <<box, chord from start to end, chords>>.
RECURSIVE Least(_, _, _, _)
Least(s, i, k, v) == IF i > Len(s) THEN 16 * v ELSE Least(s, i + 1, k, Min(v, s[i][k]))
RECURSIVE Greatest(_, _, _, _)
Greatest(s, i, k, v) == IF i > Len(s) THEN 16 * v ELSE Greatest(s, i + 1, k, Max(v, s[i][k]))
Piece(p, s) == <<<<Least(s, 3, 1, p[1]), Least(s, 3, 2, p[2]), Greatest(s, 3, 1, p[1]), Greatest(s, 3, 2, p[2])>>, Pt(p) \o Pt(End(s)), IF s[1] = ON THEN <<>> ELSE <<>> \o Chords(p, s)>>
RECURSIVE Walk(_, _, _)
Walk(p, ss, i) == IF i > Len(ss) THEN <<>> ELSE <<Piece(p, ss[i])>> \o Walk(End(ss[i]), ss, i + 1)
Last(f) == IF f[2] = <<>> THEN f[1] ELSE End(f[2][Len(f[2])])
FigPieces(f) == Walk(f[1], f[2], 1) \o <<Piece(Last(f), <<ON, 0, f[1]>>)>>
RECURSIVE Pieces(_)
Pieces(fs) == IF fs = <<>> THEN <<>> ELSE FigPieces(Head(fs)) \o Pieces(Tail(fs))
Cross(c, p) == (c[3] - c[1]) * (p[2] - c[2]) - (c[4] - c[2]) * (p[1] - c[1])
Turn(c, p) == IF c[2] <= p[2] /\ c[4] > p[2] THEN (IF Cross(c, p) > 0 THEN 0 ELSE 1)
              ELSE IF c[4] <= p[2] /\ c[2] > p[2] THEN (IF Cross(c, p) < 0 THEN 0 ELSE -1) ELSE 0
InBox(b, p, m) == b[1] - m <= p[1] /\ p[1] <= b[3] + m /\ b[2] - m <= p[2] /\ p[2] <= b[4] + m
RECURSIVE Turns(_, _, _)
Turns(cs, i, p) == IF i > Len(cs) THEN 0 ELSE Turn(cs[i], p) + Turns(cs, i + 1, p)
\* Seen from outside of its box a curve turns around the point like its chord does.
PieceTurn(c, p) == IF c[3] = <<>> \/ ~InBox(c[1], p, 0) THEN Turn(c[2], p) ELSE Turns(c[3], 1, p)
RECURSIVE Winding(_, _, _)
Winding(ps, i, p) == IF i > Len(ps) THEN 0 ELSE PieceTurn(ps[i], p) + Winding(ps, i + 1, p)
Inside(w, rule) == IF rule = 0 THEN w # 0 ELSE w % 2 = 1
\* The point is within m of the chord's bounding box.
Near(c, p, m) == Min(c[1], c[3]) - m <= p[1] /\ p[1] <= Max(c[1], c[3]) + m /\ Min(c[2], c[4]) - m <= p[2] /\ p[2] <= Max(c[2], c[4]) + m
On(c, p) == Near(c, p, 0) /\ Cross(c, p) = 0
\* Whether the point is too close to a piece to decide: on a line, or within m of a chord's box.
Touches(c, p, m) == InBox(c[1], p, m) /\ IF c[3] = <<>> THEN On(c[2], p) ELSE \E i \in 1..Len(c[3]) : Near(c[3][i], p, m)
\* Square of the distance to a chord compared with (n/d): -1 closer, 0 equal, 1 farther.  Coordinates below 2^11, n below 2^7.
Sq(v) == v * v
Dot(c, p) == (c[3] - c[1]) * (p[1] - c[1]) + (c[4] - c[2]) * (p[2] - c[2])
Len2(c) == Sq(c[3] - c[1]) + Sq(c[4] - c[2])
Closer(c, p, r) == IF Dot(c, p) <= 0 THEN Sq(p[1] - c[1]) + Sq(p[2] - c[2]) < r * r
                   ELSE IF Dot(c, p) >= Len2(c) THEN Sq(p[1] - c[3]) + Sq(p[2] - c[4]) < r * r
                   ELSE Abs(Cross(c, p)) < 30000 /\ Sq(Cross(c, p)) < r * r * Len2(c)
==================================================================================
