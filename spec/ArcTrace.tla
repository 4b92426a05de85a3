---------------------------------- MODULE ArcTrace ----------------------------------
(* Arcs, ellipses and rounded rectangles appended to a path (property C06).  Vertices are relative to the centre,   *)
(* divided by the radii, in units of 1/4096 (rounded rectangles: absolute, in 1/64), so that any ellipse is a circle. *)
(* Angles are multiples of 15 degrees.                                                                              *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANT Slots
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
tvars == <<t, l>>
Ev == Traces[t].ev
e == Ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1
MOVE == 0  ON == 1  CONIC == 3  CUBIC == 4  CLOSE == 5  WEIGHT == 6
U == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Min(a, b) == IF a < b THEN a ELSE b
Cos15 == <<4096, 3956, 3547, 2896, 2048, 1060, 0>>
RECURSIVE Cos(_)
Cos(a) == LET m == a % 24 IN IF m > 12 THEN Cos(24 - m) ELSE IF m > 6 THEN -Cos15[13 - m] ELSE Cos15[m + 1]
At(a) == <<Cos(a), Cos(a - 6)>>
Near(p, q) == Abs(p[1] - q[1]) <= 4 /\ Abs(p[2] - q[2]) <= 4
P(v) == <<v[2], v[3]>>
Turn(p, d) == <<-d * p[2], d * p[1]>>              \* by 90 degrees
Dot(p, q) == (p[1] * q[1]) \div U + (p[2] * q[2]) \div U
Cross(p, q) == (p[1] * q[2]) \div U - (p[2] * q[1]) \div U
Kappa(x) == (x * 2262) \div U
\* A quarter turn by a cubic.
Quarter(p, v, i, d) == LET c == Turn(p, d) IN
  /\ v[i][1] = CUBIC /\ v[i + 1][1] = CUBIC /\ v[i + 2][1] = ON
  /\ Near(P(v[i]), <<p[1] + Kappa(c[1]), p[2] + Kappa(c[2])>>)
  /\ Near(P(v[i + 1]), <<c[1] + Kappa(p[1]), c[2] + Kappa(p[2])>>)
  /\ Near(P(v[i + 2]), c)
\* At most a quarter turn by a conic: its control point is where the tangents meet, its weight the cosine of half of the angle.
Rest(p, v, i, d) == LET z == P(v[i + 2]) c == P(v[i]) w == v[i + 1][2] IN
  /\ v[i][1] = CONIC /\ v[i + 1][1] = WEIGHT /\ v[i + 2][1] = ON
  /\ d * Cross(p, z) >= -8 /\ Dot(p, z) >= -8
  /\ Abs(Dot(c, p) - U) <= 12 /\ Abs(Dot(c, z) - U) <= 12
  /\ Abs((w * w) \div U - (U + Dot(p, z)) \div 2) <= 16 /\ w >= 0
\* At most a quarter turn by a cubic: control points on the tangents, equally far, the middle on the circle.
Cubic(p, v, i, d) == LET z == P(v[i + 2]) c1 == P(v[i]) c2 == P(v[i + 1]) m == <<(p[1] + 3 * c1[1] + 3 * c2[1] + z[1]) \div 8, (p[2] + 3 * c1[2] + 3 * c2[2] + z[2]) \div 8>> IN
  /\ v[i + 1][1] = CUBIC /\ v[i + 2][1] = ON
  /\ d * Cross(p, z) >= -8 /\ Dot(p, z) >= -8
  /\ Abs(Dot(c1, p) - U) <= 12 /\ Abs(Dot(c2, z) - U) <= 12
  /\ d * Cross(p, c1) >= -8 /\ Abs(Cross(p, c1) - Cross(c2, z)) <= 12
  /\ Abs(Dot(m, m) - U) <= 16
\* Vertices i.. are an arc from p in direction d; the number of quarters before the end point z.
RECURSIVE ArcOK(_, _, _, _, _)
ArcOK(p, v, i, d, n) ==      \* result: <<ok, quarters, last point>>
  IF i > Len(v) THEN <<TRUE, n, p, FALSE>>
  ELSE IF i + 2 > Len(v) THEN <<FALSE, n, p, FALSE>>
  ELSE IF v[i][1] = CUBIC THEN IF Quarter(p, v, i, d) THEN ArcOK(P(v[i + 2]), v, i + 3, d, n + 1)
                               ELSE <<i + 2 = Len(v) /\ Cubic(p, v, i, d), n, P(v[i + 2]), TRUE>>
  ELSE <<Rest(p, v, i, d) /\ i + 2 = Len(v), n, P(v[i + 2]), TRUE>>
Arc(v, first, a, s) ==
  LET sw == IF s > 24 THEN 24 ELSE IF s < -24 THEN -24 ELSE s
      r == ArcOK(At(a), v, 2, Sgn(sw), 0) IN
  /\ v[1][1] = first /\ Near(P(v[1]), At(a))
  /\ r[1] /\ Near(r[3], At(a + sw))
  /\ 6 * r[2] <= Abs(sw) /\ Abs(sw) <= 6 * r[2] + (IF r[4] THEN 6 ELSE 0)
Sweep == IF e.ccw THEN -e.sw ELSE e.sw
Body(k) == SubSeq(e.v, k, Len(e.v) - 1)
Closed == e.v[Len(e.v)][1] = CLOSE
\* Between two points of a circle of radius 65.
Unit(x) == (x * U) \div 65
Svg == LET d == IF e.sweep THEN 1 ELSE -1 a == <<Unit(e.ab[1]), Unit(e.ab[2])>> z == <<Unit(e.ab[3]), Unit(e.ab[4])>> r == ArcOK(a, e.v, 2, d, 0) IN
       /\ e.v[1][1] = MOVE /\ Near(P(e.v[1]), a) /\ r[1] /\ r[2] <= 3 /\ Near(r[3], z)
\* Rounded rectangle.
Rx == Min(Abs(e.q[5]), e.q[3] \div 2)
Ry == Min(Abs(e.q[6]), e.q[4] \div 2)
Round ==
  LET x0 == e.q[1] y0 == e.q[2] x1 == x0 + e.q[3] y1 == y0 + e.q[4] kx == (Rx * 4477) \div 10000 ky == (Ry * 4477) \div 10000
      cw == << <<MOVE, x0 + Rx, y0>>, <<ON, x1 - Rx, y0>>, <<CUBIC, x1 - kx, y0>>, <<CUBIC, x1, y0 + ky>>, <<ON, x1, y0 + Ry>>,
               <<ON, x1, y1 - Ry>>, <<CUBIC, x1, y1 - ky>>, <<CUBIC, x1 - kx, y1>>, <<ON, x1 - Rx, y1>>,
               <<ON, x0 + Rx, y1>>, <<CUBIC, x0 + kx, y1>>, <<CUBIC, x0, y1 - ky>>, <<ON, x0, y1 - Ry>>,
               <<ON, x0, y0 + Ry>>, <<CUBIC, x0, y0 + ky>>, <<CUBIC, x0 + kx, y0>>, <<ON, x0 + Rx, y0>> >>
      \* the other direction: the same points backwards
      back == [i \in 1..17 |-> <<IF i = 1 THEN MOVE ELSE IF i = 17 THEN ON ELSE cw[18 - i][1], cw[18 - i][2], cw[18 - i][3]>>]
      exp == IF Rx = 0 \/ Ry = 0 THEN IF e.ccw THEN << <<MOVE, x0, y0>>, <<ON, x0, y1>>, <<ON, x1, y1>>, <<ON, x1, y0>> >> ELSE << <<MOVE, x0, y0>>, <<ON, x1, y0>>, <<ON, x1, y1>>, <<ON, x0, y1>> >>
             ELSE IF e.ccw THEN SubSeq(back, 1, 16) ELSE cw
      n == Len(exp) IN
  /\ Len(e.v) = n + 1 /\ Closed
  /\ \A i \in 1..n : e.v[i][1] = exp[i][1] /\ Abs(e.v[i][2] - exp[i][2]) <= 1 /\ Abs(e.v[i][3] - exp[i][3]) <= 1
Step ==
  CASE e.op = "ellipse" -> Closed /\ Arc(Body(1), MOVE, 0, Sweep)
    [] e.op = "arc"   -> Arc(e.v, MOVE, e.sa, Sweep)
    [] e.op = "chord" -> Closed /\ Arc(Body(1), MOVE, e.sa, Sweep)
    [] e.op = "pie"   -> Closed /\ Near(P(e.v[1]), <<0, 0>>) /\ e.v[1][1] = MOVE /\ Arc(Body(2), ON, e.sa, Sweep)
    [] e.op = "arcto" -> e.pre /\ Arc(e.v, IF e.join THEN ON ELSE MOVE, e.sa, e.sw)
    [] e.op = "quadrant" -> Arc(e.v, MOVE, e.sa, e.sw)
    [] e.op = "svgarc" -> Svg
    [] e.op = "round" -> Round
TraceNext == \/ /\ l <= Len(Ev)
                /\ e.ok /\ e.bad = 0 /\ Step
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
=====================================================================================
