-------------------------------- MODULE ContextSpec --------------------------------
(* State of a rendering context attached to an image of W x H pixels, and the effect of every state operation.
   Units: lengths, matrices, stroke numbers and clip boxes in 1/64, alphas and tolerances in 1/1024.
   A context has a current state and a stack of saved states; each saved state remembers the cookie it was saved with
   (0: none).  A gradient/pattern style remembers the transformation it was given when it was set. *)
EXTENDS Integers, Sequences
CONSTANTS W, H
M == INSTANCE Matrix WITH U <- 64
Whole == <<0, 0, W * 64, H * 64>>
Black == <<1, 255, 0, 0, 0>>
Fresh == [ op |-> 0, rule |-> 0, hint |-> <<0, 0, 1>>, ga |-> 1024, sa |-> <<1024, 1024>>, stroke |-> <<64, 256, 0, 0, 0, 0, 0>>, dash |-> <<>>,
           appr |-> <<0, 205, 0, 424>>, user |-> M!Id, meta |-> M!Id, style |-> <<Black, Black>>, clip |-> Whole ]
Final(x) == M!Mul(x.user, x.meta)
Clamp(v, a, b) == IF v < a THEN a ELSE IF v > b THEN b ELSE v
Unit(v) == Clamp(v, 0, 1024)
Tol(v) == Clamp(v, 10, 512)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Empty(b) == b[1] >= b[3] \/ b[2] >= b[4]
NoBox == <<0, 0, 0, 0>>
Meet(a, b) == LET c == <<Max(a[1], b[1]), Max(a[2], b[2]), Min(a[3], b[3]), Min(a[4], b[4])>> IN IF Empty(a) \/ Empty(b) \/ Empty(c) THEN NoBox ELSE c
\* Bounding box of the rectangle (x, y, w, h) mapped by m.
Mapped(m, r) == LET p == M!MapPoint(m, <<r[1], r[2]>>) q == M!MapPoint(m, <<r[1] + r[3], r[2]>>) s == M!MapPoint(m, <<r[1], r[2] + r[4]>>) t == M!MapPoint(m, <<r[1] + r[3], r[2] + r[4]>>) IN
  <<Min(Min(p[1], q[1]), Min(s[1], t[1])), Min(Min(p[2], q[2]), Min(s[2], t[2])), Max(Max(p[1], q[1]), Max(s[1], t[1])), Max(Max(p[2], q[2]), Max(s[2], t[2]))>>
ValidStroke(v) == v[3] \in 0..5 /\ v[4] \in 0..5 /\ v[5] \in 0..4 /\ v[6] \in 0..1
ValidHints(v) == v[1] = 0 /\ v[2] \in 0..2 /\ v[3] \in 0..1
ValidAppr(v) == v[1] \in 0..1 /\ v[3] \in 0..1
\* Save and restore.  A state saved under a cookie is only restored by that cookie; the cookie discards the states saved after it.
Saved(stack, x, c) == Append(stack, [x |-> x, c |-> c])
Holder(stack, c) == {i \in 1..Len(stack) : stack[i].c = c}
CanRestore(stack, c) == IF c = 0 THEN Len(stack) > 0 /\ stack[Len(stack)].c = 0 ELSE Holder(stack, c) # {}
RestoreTo(stack, c) == IF c = 0 THEN Len(stack) ELSE CHOOSE i \in Holder(stack, c) : TRUE
\* Alpha (0..255) of an opaque white fill at pixel column/row k of a box covering lo..hi (1/64): coverage of the pixel.
Cover(lo, hi, k) == Max(0, Min(hi, 64 * (k + 1)) - Max(lo, 64 * k))
====================================================================================
