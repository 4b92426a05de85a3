------------------------------ MODULE CompSpec ------------------------------
(* The composition operators (C15) as formulas on premultiplied components.

   Components are 0..255 and a formula yields 65025 times the resulting component in 0..1 (all of them are polynomials of
   degree two, or the minimum or maximum of two such), so that nothing is rounded here.  sc, sa, dc, da are the component
   and the alpha of source and destination; the alpha itself is composed by Alpha. *)
EXTENDS Integers
One == 65025
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Union(sa, da) == sa * 255 + da * (255 - sa)
(* Parts of the source and of the destination outside the other. *)
Outer(sc, sa, dc, da) == sc * (255 - da) + dc * (255 - sa)
Exact == {20, 21, 26}            \* colour dodge, colour burn and soft light are quotients: only their trivial cases are here
Color(op, sc, sa, dc, da) ==
  CASE op = 0 -> sc * 255 + dc * (255 - sa)
    [] op = 1 -> sc * 255
    [] op = 2 -> sc * da
    [] op = 3 -> sc * (255 - da)
    [] op = 4 -> sc * da + dc * (255 - sa)
    [] op = 5 -> dc * 255 + sc * (255 - da)
    [] op = 6 -> dc * 255
    [] op = 7 -> dc * sa
    [] op = 8 -> dc * (255 - sa)
    [] op = 9 -> dc * sa + sc * (255 - da)
    [] op = 10 -> Outer(sc, sa, dc, da)
    [] op = 11 -> 0
    [] op = 12 -> Min(One, (sc + dc) * 255)
    [] op = 13 -> Max(0, (dc - sc) * 255)
    [] op = 14 -> dc * sc
    [] op = 15 -> dc * sc + Outer(sc, sa, dc, da)
    [] op = 16 -> dc * 255 + sc * (255 - dc)
    [] op = 17 -> IF 2 * dc < da THEN 2 * sc * dc + Outer(sc, sa, dc, da)
                  ELSE sa * da - 2 * (da - dc) * (sa - sc) + Outer(sc, sa, dc, da)
    [] op = 18 -> Min(sc * da, dc * sa) + Outer(sc, sa, dc, da)
    [] op = 19 -> Max(sc * da, dc * sa) + Outer(sc, sa, dc, da)
    [] op = 22 -> Max(0, (dc + sc) * 255 - sa * da)
    [] op = 23 -> Min(Max(dc * sa + 2 * sc * da - sa * da, 0), sa * da) + Outer(sc, sa, dc, da)
    [] op = 24 -> IF 2 * sc <= sa THEN Min(dc * sa, 2 * sc * da) + Outer(sc, sa, dc, da)
                  ELSE Max(dc * sa, 2 * sc * da - sa * da) + Outer(sc, sa, dc, da)
    [] op = 25 -> IF 2 * sc <= sa THEN 2 * sc * dc + Outer(sc, sa, dc, da)
                  ELSE sa * da - 2 * (da - dc) * (sa - sc) + Outer(sc, sa, dc, da)
    [] op = 27 -> (dc + sc) * 255 - 2 * Min(sc * da, dc * sa)
    [] op = 28 -> dc * 255 + sc * (da - 2 * dc)
    [] OTHER -> dc * 255
Alpha(op, sa, da) ==
  CASE op \in 0..12 \/ op = 14 -> Color(op, sa, sa, da, da)
    [] OTHER -> Union(sa, da)
(* The operators are defined by quotients where a transparent source has no influence. *)
Known(op, sa) == op \notin Exact \/ sa = 0
Abs(x) == IF x < 0 THEN -x ELSE x
(* out is the component dc moved by m / 255 towards f / 65025, up to tol. *)
Near(out, dc, f, m, tol) == LET e == dc * 255 * (255 - m) + f * m IN Abs(out * One - e) <= tol * One
(* d, s, o: destination before, source and destination after, each <<a, r, g, b>>. *)
PixelOk(op, fmt, d, s, m, o, tol) ==
  LET da == IF fmt = 2 THEN 255 ELSE d[1] IN
  /\ IF fmt = 2 THEN TRUE ELSE Near(o[1], d[1], Alpha(op, s[1], da), m, tol)
  /\ IF fmt = 3 \/ ~Known(op, s[1]) THEN TRUE
     ELSE \A i \in 2..4 : Near(o[i], d[i], Color(op, s[i], s[1], d[i], da), m, tol)
  /\ IF fmt = 1 THEN \A i \in 2..4 : o[i] <= o[1] ELSE TRUE
(* Formulas which must agree with each other (checked once, on a grid, by CompTrace's ASSUME). *)
Algebra ==
  \A sa \in {0, 1, 100, 255}, da \in {0, 7, 200, 255} : \A sc \in {0, sa \div 2, sa}, dc \in {0, da \div 3, da} :
    /\ \A op \in (0..28) \ Exact : Color(op, sc, sa, dc, da) \in 0..One /\ Alpha(op, sa, da) \in 0..One
    /\ \A op \in (0..28) \ (Exact \cup {12}) : Color(op, sc, sa, dc, da) <= Alpha(op, sa, da)
    /\ \A op \in {0, 4, 5, 6, 8, 10, 12, 13, 15, 16, 17, 18, 19, 22, 23, 24, 25, 27, 28} : Color(op, 0, 0, dc, da) = dc * 255 /\ Alpha(op, 0, da) = da * 255
    /\ Color(2, sc, sa, dc, da) + Color(3, sc, sa, dc, da) = Color(1, sc, sa, dc, da)
    /\ Color(4, sc, sa, dc, da) = Color(2, sc, sa, dc, da) + Color(8, sc, sa, dc, da)
    /\ Color(0, sc, sa, dc, da) = Color(4, sc, sa, dc, da) + Color(3, sc, sa, dc, da)
    /\ Color(5, sc, sa, dc, da) = Color(0, dc, da, sc, sa)
    /\ Color(9, sc, sa, dc, da) = Color(4, dc, da, sc, sa)
    /\ Color(18, sc, sa, dc, da) + Color(19, sc, sa, dc, da) = sc * da + dc * sa + 2 * Outer(sc, sa, dc, da)
    /\ Color(17, sc, sa, dc, da) = Color(25, dc, da, sc, sa) \/ 2 * dc = da
=============================================================================
