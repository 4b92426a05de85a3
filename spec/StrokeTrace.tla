----------------------------- MODULE StrokeTrace -----------------------------
(* C34: recorded strokes against StrokeSpec. *)
EXTENDS StrokeSpec, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev
Init == t \in 1..Len(Traces) /\ l = 1
Slope(e) ==
  LET ls == TLCEval(Lines(e))
      round == e.join = 4 /\ (\A i \in 1..Len(e.subs) : e.subs[i].c \/ (e.cap0 = 2 /\ e.cap1 = 2))
      far == IF round THEN e.w ELSE IF e.join < 3 THEN e.w * MaxOf(2, e.miter) ELSE (3 * e.w + 1) \div 2 IN
  \A y \in 0..(e.ih - 1) : \A x \in 0..(e.iw - 1) : LET v == e.d[y + 1][x + 1] IN
    IF v >= 253 THEN \E g \in ls : LineTouches(g, x, y, far)
    ELSE /\ ~\E g \in ls : LineCovers(g, x, y, e.w, round)
         /\ IF v > 2 THEN \E g \in ls : LineTouches(g, x, y, far) ELSE TRUE
(* The stroke of a circle is a ring. *)
Ring(e) ==
  LET r == 2 * e.circle[3] D(px, py) == Sq(px - 2 * e.circle[1]) + Sq(py - 2 * e.circle[2]) IN
  \A y \in 0..(e.ih - 1) : \A x \in 0..(e.iw - 1) : LET v == e.d[y + 1][x + 1] m == D(2 * x + 1, 2 * y + 1) IN
    /\ IF \A c \in Corners(x, y) : D(c[1], c[2]) >= Sq(r - e.w + 1) /\ D(c[1], c[2]) <= Sq(r + e.w - 1) THEN v >= 253 ELSE TRUE
    /\ IF m > Sq(r + e.w + 2) \/ (r > e.w + 2 /\ m < Sq(r - e.w - 2)) THEN v <= 2 ELSE TRUE
Ok(e) ==
  /\ e.rc = 0
  /\ IF e.op = "slope" THEN Slope(e) ELSE IF e.op = "ring" THEN Ring(e) ELSE LET ps == TLCEval(Pieces(e)) IN
     \A y \in 0..(e.ih - 1) : LET row == TLCEval({p \in ps : p.y0 <= y /\ y < p.y1}) IN
       \A x \in 0..(e.iw - 1) : LET v == e.d[y + 1][x + 1] IN
         IF \E p \in row : Covers(p, x, y) THEN v >= 253
         ELSE IF \E p \in row : Touches(p, x, y) THEN TRUE ELSE v <= 2
TraceNext ==
  \/ /\ l <= Len(Ev) /\ (Ok(Ev[l]) = TRUE) /\ l' = l + 1 /\ UNCHANGED t
  \/ l > Len(Ev) /\ UNCHANGED vars
=============================================================================
