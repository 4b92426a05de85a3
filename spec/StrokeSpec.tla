----------------------------- MODULE StrokeSpec -----------------------------
(* C34. The stroke of an axis-parallel polyline is the union of the boxes of its segments, of a corner piece at every turn and of a
   cap at both ends of an open figure. A piece is a box, and of corner pieces and caps the part that the join or cap leaves of it:
     "box"  all of it
     "tri"  the points with a + b <= 1,  "disc" those with a^2 + b^2 <= 1   (a, b: distances from the centre, the size being 1)
     "some" any part of it. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
(* Joins: 0..2 mitre with clip, bevel or round where it would be too long, 3 bevel, 4 round. *)
JoinShape(join, sharp) ==
  CASE join = 4 -> "disc" [] join = 3 -> "tri"
    [] ~sharp -> "box" [] join = 1 -> "tri" [] join = 2 -> "disc" [] OTHER -> "some"
CapShape(cap) == CASE cap = 1 -> "box" [] cap = 2 -> "disc" [] cap = 4 -> "tri" [] OTHER -> "some"
(* Points of a figure in device space, repeated ones dropped. *)
Device(p, m) == <<m[1] * p[1] + m[3], m[2] * p[2] + m[4]>>
Distinct(ps) == FoldLeft(LAMBDA acc, p : IF Len(acc) > 0 /\ acc[Len(acc)] = p THEN acc ELSE Append(acc, p), <<>>, ps)
Figure(s, m) ==
  LET q == Distinct([i \in 1..Len(s.p) |-> Device(s.p[i], m)]) IN
  IF s.c /\ Len(q) > 1 /\ q[1] = q[Len(q)] THEN SubSeq(q, 1, Len(q) - 1) ELSE q
(* A piece: the box [x0, x1) x [y0, y1), its shape and centre (the corner or middle of the side that distances are taken from). *)
Piece(x0, y0, x1, y1, shape, cx, cy, hx, hy) == [x0 |-> x0, y0 |-> y0, x1 |-> x1, y1 |-> y1, s |-> shape, cx |-> cx, cy |-> cy, hx |-> hx, hy |-> hy]
Segment(p, q, hx, hy) ==
  IF p[2] = q[2] THEN Piece(MinOf(p[1], q[1]), p[2] - hy, MaxOf(p[1], q[1]), p[2] + hy, "box", 0, 0, 1, 1)
  ELSE Piece(p[1] - hx, MinOf(p[2], q[2]), p[1] + hx, MaxOf(p[2], q[2]), "box", 0, 0, 1, 1)
(* The outer quarter at the turn p -> q -> r. *)
Turns(p, q, r) == (p[1] = q[1]) # (q[1] = r[1])
Corner(p, q, r, hx, hy, shape) ==
  LET dx == Sgn(q[1] - p[1]) + Sgn(q[1] - r[1]) dy == Sgn(q[2] - p[2]) + Sgn(q[2] - r[2]) IN
  Piece(MinOf(q[1], q[1] + dx * hx), MinOf(q[2], q[2] + dy * hy), MaxOf(q[1], q[1] + dx * hx), MaxOf(q[2], q[2] + dy * hy), shape, q[1], q[2], hx, hy)
(* The cap at the end q of the segment p -> q. *)
Cap(p, q, hx, hy, shape) ==
  IF p[2] = q[2] THEN LET d == Sgn(q[1] - p[1]) IN Piece(MinOf(q[1], q[1] + d * hx), q[2] - hy, MaxOf(q[1], q[1] + d * hx), q[2] + hy, shape, q[1], q[2], hx, hy)
  ELSE LET d == Sgn(q[2] - p[2]) IN Piece(q[1] - hx, MinOf(q[2], q[2] + d * hy), q[1] + hx, MaxOf(q[2], q[2] + d * hy), shape, q[1], q[2], hx, hy)
PiecesOf(f, closed, hx, hy, js, cap0, cap1) ==
  LET n == Len(f) IN
  IF n < 2 THEN {}
  ELSE {Segment(f[i], f[i + 1], hx, hy) : i \in 1..(n - 1)} \cup (IF closed THEN {Segment(f[n], f[1], hx, hy)} ELSE {})
    \cup {Corner(f[i - 1], f[i], f[i + 1], hx, hy, js) : i \in {j \in 2..(n - 1) : Turns(f[j - 1], f[j], f[j + 1])}}
    \cup (IF closed THEN (IF Turns(f[n - 1], f[n], f[1]) THEN {Corner(f[n - 1], f[n], f[1], hx, hy, js)} ELSE {})
                      \cup (IF Turns(f[n], f[1], f[2]) THEN {Corner(f[n], f[1], f[2], hx, hy, js)} ELSE {})
          ELSE (IF cap0 = 0 THEN {} ELSE {Cap(f[2], f[1], hx, hy, CapShape(cap0))})
            \cup (IF cap1 = 0 THEN {} ELSE {Cap(f[n - 1], f[n], hx, hy, CapShape(cap1))}))
Pieces(e) ==
  LET hx == IF e.before THEN e.w \div 2 ELSE (Abs(e.m[1]) * e.w) \div 2
      hy == IF e.before THEN e.w \div 2 ELSE (Abs(e.m[2]) * e.w) \div 2 IN
  UNION {PiecesOf(Figure(e.subs[i], e.m), e.subs[i].c, hx, hy, JoinShape(e.join, e.sharp), e.cap0, e.cap1) : i \in 1..Len(e.subs)}
(* The pixel [x, x + 1) x [y, y + 1). *)
Within(p, x, y) == x >= p.x0 /\ x < p.x1 /\ y >= p.y0 /\ y < p.y1
Near(x, c) == IF x >= c THEN x - c ELSE c - x - 1
Far(x, c) == Near(x, c) + 1
Covers(p, x, y) ==
  /\ Within(p, x, y)
  /\ LET a == Far(x, p.cx) * p.hy b == Far(y, p.cy) * p.hx h == p.hx * p.hy IN
     CASE p.s = "box" -> TRUE [] p.s = "tri" -> a + b <= h [] p.s = "disc" -> 100 * (a * a + b * b) <= 92 * h * h [] OTHER -> FALSE
Touches(p, x, y) ==
  /\ Within(p, x, y)
  /\ LET a == Near(x, p.cx) * p.hy b == Near(y, p.cy) * p.hx h == p.hx * p.hy IN
     CASE p.s = "tri" -> a + b < h [] p.s = "disc" -> 100 * (a * a + b * b) <= 108 * h * h [] OTHER -> TRUE
(* Lines of any direction, in units of half a pixel. Seen from the point (px, py), for the segment a -> b: *)
Line(p, q) == [ax |-> 2 * p[1], ay |-> 2 * p[2], bx |-> 2 * q[1], by |-> 2 * q[2], dx |-> 2 * (q[1] - p[1]), dy |-> 2 * (q[2] - p[2]), n |-> 4 * ((q[1] - p[1]) * (q[1] - p[1]) + (q[2] - p[2]) * (q[2] - p[2]))]
Lines(e) == UNION {LET f == Figure(e.subs[i], e.m) IN {Line(f[j], f[j + 1]) : j \in 1..(Len(f) - 1)} \cup (IF e.subs[i].c /\ Len(f) > 1 THEN {Line(f[Len(f)], f[1])} ELSE {}) : i \in 1..Len(e.subs)}
Along(g, px, py) == (px - g.ax) * g.dx + (py - g.ay) * g.dy
Cross(g, px, py) == (px - g.ax) * g.dy - (py - g.ay) * g.dx
Sq(x) == x * x
Beside(g, px, py) == LET a == Along(g, px, py) IN a >= 0 /\ a <= g.n
Reaches(g, px, py, r) == IF Beside(g, px, py) THEN Sq(Cross(g, px, py)) <= r * r * g.n
                         ELSE \/ Sq(px - g.ax) + Sq(py - g.ay) <= r * r \/ Sq(px - g.bx) + Sq(py - g.by) <= r * r
Corners(x, y) == {<<2 * x, 2 * y>>, <<2 * x + 2, 2 * y>>, <<2 * x, 2 * y + 2>>, <<2 * x + 2, 2 * y + 2>>}
(* The stroke contains the box of a segment, with round joins and caps the whole capsule (both convex), half a pixel taken off. *)
LineCovers(g, x, y, r, round) == \A c \in Corners(x, y) : IF round THEN Reaches(g, c[1], c[2], r - 1) ELSE Beside(g, c[1], c[2]) /\ Reaches(g, c[1], c[2], r - 1)
(* Nothing of it is farther from all segments than the radius, or the longest mitre, or the corner of a square cap. *)
LineTouches(g, x, y, r) == Reaches(g, 2 * x + 1, 2 * y + 1, r + 2)
=============================================================================
