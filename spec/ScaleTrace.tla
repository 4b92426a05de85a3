----------------------------- MODULE ScaleTrace -----------------------------
(* C33: recorded scalings against ScaleSpec. *)
EXTENDS ScaleSpec, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev
Init == t \in 1..Len(Traces) /\ l = 1
Invalid == 65537
(* Component k of the whole image after both passes, in 1/16; the alpha bounds the colours of premultiplied pixels. *)
Plane(e, k) == TLCEval([y \in 1..e.h |-> [x \in 1..e.w |-> e.s[y][x][k] * 16]])
Horz(e, plane, xt) == IF e.tw = e.w /\ e.th # e.h THEN plane ELSE TLCEval([y \in 1..e.h |-> [x \in 1..e.tw |-> Mix(xt[x], plane[y])]])
Vert(e, plane, yt) == IF e.th = e.h THEN plane ELSE LET cols == TLCEval([x \in 1..e.tw |-> [j \in 1..e.h |-> plane[j][x]]]) IN
  TLCEval([y \in 1..e.th |-> [x \in 1..e.tw |-> Mix(yt[y], cols[x])]])
Bounded(p, hi) == TLCEval([y \in 1..Len(p) |-> [x \in 1..Len(p[y]) |-> Clamp(p[y][x], 0, hi[y][x])]])
White(p) == TLCEval([y \in 1..Len(p) |-> [x \in 1..Len(p[y]) |-> 4080]])
Flat(e, k) == [lo |-> Min({e.s[y][x][k] : y \in 1..e.h, x \in 1..e.w}), hi |-> Max({e.s[y][x][k] : y \in 1..e.h, x \in 1..e.w})]
ScaleOk(e) ==
  LET n == IF e.f = 3 THEN 1 ELSE 4
      xt == TLCEval([x \in 1..e.tw |-> Taps(e.flt, e.w, e.tw, x - 1)])
      yt == TLCEval([y \in 1..e.th |-> Taps(e.flt, e.h, e.th, y - 1)])
      cx == Max({Len(xt[x]) : x \in 1..e.tw})
      cy == Max({Len(yt[y]) : y \in 1..e.th})
      tie == (e.flt = Nearest) /\ ((\E x \in 0..(e.tw - 1) : Tie(e.flt, e.w, e.tw, x)) \/ (\E y \in 0..(e.th - 1) : Tie(e.flt, e.h, e.th, y)))
      ah == LET p == Horz(e, Plane(e, 1), xt) IN Bounded(p, White(p))
      av == LET p == Vert(e, ah, yt) IN Bounded(p, White(p))
      \* colours of premultiplied pixels never exceed the alpha
      capH == IF e.f = 1 THEN ah ELSE White(ah)
      capV == IF e.f = 1 THEN av ELSE White(av)
      want == TLCEval([k \in 1..n |-> IF k = 1 THEN av ELSE Bounded(Vert(e, Bounded(Horz(e, Plane(e, k), xt), capH), yt), capV)])
      rg == TLCEval([k \in 1..n |-> Flat(e, k)])
      \* what 8-bit weights may lose in the two passes (negative weights amplify it)
      amp == IF e.flt = Lanczos THEN 5 ELSE 4
      tol == TLCEval([k \in 1..n |-> IF rg[k].lo = rg[k].hi THEN 0 ELSE 16 * (IF e.flt = Nearest THEN 1 ELSE 2) + (amp * (cx + cy - 2) * (rg[k].hi - rg[k].lo)) \div 64])
  IN \A y \in 1..e.th : \A x \in 1..e.tw : \A k \in 1..n :
       /\ IF e.flt = Lanczos THEN TRUE ELSE e.d[y][x][k] \in rg[k].lo..rg[k].hi
       /\ IF tie THEN TRUE ELSE Abs(16 * e.d[y][x][k] - want[k][y][x]) <= (IF k > 1 /\ e.f = 1 THEN MaxOf(tol[1], tol[k]) ELSE tol[k])
       /\ IF e.f = 1 /\ k > 1 THEN e.d[y][x][k] <= e.d[y][x][1] ELSE TRUE
Ok(e) ==
  /\ e.same
  /\ IF e.op = "none" THEN
       IF e.empty THEN e.rc = 0 /\ e.none
       ELSE /\ e.unch
            /\ IF e.tw < 1 \/ e.th < 1 \/ e.flt \notin 1..4 THEN e.rc = Invalid ELSE e.huge /\ e.rc # 0
     ELSE /\ e.rc = 0 /\ e.df = e.f /\ e.dw = e.tw /\ e.dh = e.th /\ e.tw > 0 /\ e.th > 0 /\ e.flt \in 1..4
          /\ ScaleOk(e)
TraceNext ==
  \/ /\ l <= Len(Ev) /\ (Ok(Ev[l]) = TRUE) /\ l' = l + 1 /\ UNCHANGED t
  \/ l > Len(Ev) /\ UNCHANGED vars
=============================================================================
