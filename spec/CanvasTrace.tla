------------------------------- MODULE CanvasTrace -------------------------------
EXTENDS CanvasSpec, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cv, imgs, x, stack, free, t, l
cvars == <<cv, imgs, x, stack, free>>
tvars == <<cv, imgs, x, stack, free, t, l>>
Ev == Traces[t].ev
e == Ev[l]
Fresh == [op |-> 0, ga |-> 255, fa |-> 255, rule |-> 0, user |-> Id, meta |-> Id, near |-> FALSE, style |-> [t |-> 1, p |-> <<255, 0, 0, 0>>], clip |-> NoBox]
Blank == [f |-> 0, w |-> 0, h |-> 0, px |-> <<>>]
TraceInit == /\ cv = Blank /\ imgs = <<Blank, Blank, Blank>> /\ x = Fresh /\ stack = <<>> /\ free = NoBox
             /\ t \in 1..Len(Traces) /\ l = 1
Final == MulM(x.user, x.meta)
Keep == UNCHANGED cvars
Set(y) == x' = y /\ UNCHANGED <<cv, imgs, stack, free>>
Whole == <<0, 0, cv.w, cv.h>>
\* The style an event describes, placed by matrix b.
Style(s, b) == CASE s.t = 1 -> [t |-> 1, p |-> Premultiply(s.c)]
                 [] s.t = 2 -> [t |-> 2, im |-> imgs[s.k], area |-> s.area, ext |-> s.ext, m |-> MulM(s.m, b), near |-> x.near]
                 [] s.t = 9 -> x.style
                 [] OTHER -> [t |-> 0]
Boxes == Force([i \in 1..Len(e.sh) |-> IF e.sh[i][5] = 0 THEN Whole \o <<1>> ELSE IF e.sh[i][1] >= e.sh[i][3] \/ e.sh[i][2] >= e.sh[i][4] THEN NoBox \o <<1>> ELSE MapBox(Final, e.sh[i]) \o <<e.sh[i][5]>>])
\* Interpolated samples are not specified.
Moved(m) == m[1] = 1 /\ m[4] = 1
Known(s) == s.t = 1 \/ s.near \/ Moved(s.m)
\* Source-over by a source that is opaque as a whole is source-copy (one rounding instead of two).
Opaque(s) == IF s.t = 1 THEN s.p[1] = 255 ELSE s.im.f = XRGB
Rule(op, opaque) == IF op = SrcOver /\ opaque THEN SrcCopy ELSE op
\* The canvas after composing s with mask M(px, py) wherever In(px, py) holds inside the clip.
Draw(In(_, _), S(_, _), M(_, _), op) ==
  Force([i \in 1..(cv.w * cv.h) |-> LET px == (i - 1) % cv.w py == (i - 1) \div cv.w IN
     IF Within(x.clip, px, py) /\ In(px, py) THEN PutPixel(cv.f, op, cv.px[i], S(px, py), M(px, py)) ELSE cv.px[i]])
Paint(px) == cv' = [cv EXCEPT !.px = px] /\ UNCHANGED <<imgs, x, stack, free>>
\* Operators the portable pipeline does not provide may be refused; what they do is judged at the next reading.
Join(a, b) == IF a = NoBox THEN b ELSE IF b = NoBox THEN a ELSE <<Min(a[1], b[1]), Min(a[2], b[2]), Max(a[3], b[3]), Max(a[4], b[4])>>
Drawn(known, px) == IF Exact(x.op) /\ known THEN e.ok /\ Paint(px)
             ELSE IF Exact(x.op) THEN e.ok /\ free' = Join(free, x.clip) /\ UNCHANGED <<cv, imgs, x, stack>>
             ELSE IF e.ok THEN free' = Join(free, x.clip) /\ UNCHANGED <<cv, imgs, x, stack>> ELSE Keep
FillStep == \E s \in {Style(e.s, Final)} : \E b \in {Boxes} : \E m \in {Alpha(x.ga, x.fa)} :
  IF s.t = 0 THEN Keep
  ELSE Drawn(Known(s), Draw(LAMBDA px, py : Covered(b, IF Len(b) = 1 THEN 0 ELSE x.rule, px, py), LAMBDA px, py : Sample(s, px, py), LAMBDA px, py : m, Rule(x.op, Opaque(s))))
ClearStep == \E b \in {Boxes} :
  /\ e.ok
  /\ Paint(Draw(LAMBDA px, py : Covered(b, 0, px, py), LAMBDA px, py : <<0, 0, 0, 0>>, LAMBDA px, py : 255, SrcCopy))
\* The image part used by a blit or a mask fill, and the box it covers.
Place(m, w, h) == LET p == <<e.o[1], e.o[2], e.o[1] + w, e.o[2] + h>> IN MapBox(m, p)
Pure == Moved(Final)
BlitStep == LET im == imgs[e.k] IN
  IF ~e.valid THEN Keep
  ELSE \E b \in {Place(Final, e.area[3] * e.sx, e.area[4] * e.sy)} : \E m \in {MulM(<<e.sx, 0, 0, e.sy, e.o[1], e.o[2]>>, Final)} :
       Drawn(x.near \/ Moved(m), Draw(LAMBDA px, py : Within(b, px, py),
                  LAMBDA px, py : LET q == Texel(m, px, py) IN TexelOf(im, e.area[1] + q[1], e.area[2] + q[2]),
                  LAMBDA px, py : x.ga, Rule(x.op, im.f = XRGB)))
MaskStep == \E s \in {Style(e.s, Final)} : LET im == imgs[e.k] IN
  IF ~e.valid \/ s.t = 0 THEN Keep
  ELSE IF ~Pure THEN (IF e.ok THEN free' = Join(free, x.clip) /\ UNCHANGED <<cv, imgs, x, stack>> ELSE Keep)
  ELSE \E b \in {Place(Final, e.area[3], e.area[4])} : \E a \in {Alpha(x.ga, x.fa)} :
       Drawn(Known(s), Draw(LAMBDA px, py : Within(b, px, py), LAMBDA px, py : Sample(s, px, py),
                  LAMBDA px, py : Div255(TexelOf(im, e.area[1] + px - b[1], e.area[2] + py - b[2])[1] * a), Rule(x.op, Opaque(s))))
\* Read-back: no pixel outside the clip has changed (as a value, not as an action).
Outside(b) == TRUE = (\A i \in 1..(cv.w * cv.h) : Within(b, (i - 1) % cv.w, (i - 1) \div cv.w) \/ e.px[i] = cv.px[i])
CheckStep == /\ e.ok /\ e.guard = 0
             /\ IF free # NoBox THEN /\ Outside(free)
                             /\ cv' = [cv EXCEPT !.px = e.px] /\ free' = NoBox /\ UNCHANGED <<imgs, x, stack>>
                ELSE e.px = cv.px /\ Keep
AnyStep == /\ e.ok /\ e.guard = 0
           /\ Outside(x.clip)
           /\ cv' = [cv EXCEPT !.px = e.px] /\ free' = NoBox /\ UNCHANGED <<imgs, x, stack>>
Step ==
  CASE e.op = "new" -> /\ e.ok /\ cv' = [f |-> e.f, w |-> e.w, h |-> e.h, px |-> e.px]
                       /\ x' = [Fresh EXCEPT !.clip = <<0, 0, e.w, e.h>>] /\ stack' = <<>> /\ free' = NoBox /\ UNCHANGED imgs
    [] e.op = "img" -> e.ok /\ imgs' = [imgs EXCEPT ![e.k] = [f |-> e.f, w |-> e.w, h |-> e.h, px |-> e.px]] /\ UNCHANGED <<cv, x, stack, free>>
    [] e.op = "comp" -> e.ok /\ Set([x EXCEPT !.op = e.v])
    [] e.op = "ga" -> e.ok /\ Set([x EXCEPT !.ga = e.v])
    [] e.op = "fa" -> e.ok /\ Set([x EXCEPT !.fa = e.v])
    [] e.op = "rule" -> e.ok /\ Set([x EXCEPT !.rule = e.v])
    [] e.op = "style" -> e.ok /\ Set([x EXCEPT !.style = Style(e.s, IF e.mode = 0 THEN Final ELSE IF e.mode = 1 THEN x.meta ELSE Id)])
    [] e.op = "mat" -> e.ok /\ Set([x EXCEPT !.user = MulM(e.m, x.user)])
    [] e.op = "rmat" -> e.ok /\ Set([x EXCEPT !.user = Id])
    [] e.op = "tometa" -> e.ok /\ Set([x EXCEPT !.meta = Final, !.user = Id])
    [] e.op = "quality" -> e.ok /\ Set([x EXCEPT !.near = e.v])
    [] e.op = "clip" -> Set([x EXCEPT !.clip = IF e.v[1] >= e.v[3] \/ e.v[2] >= e.v[4] THEN NoBox ELSE Meet(x.clip, MapBox(Final, e.v))])
    [] e.op = "unclip" -> e.ok /\ Set([x EXCEPT !.clip = IF stack = <<>> THEN Whole ELSE stack[Len(stack)].clip])
    [] e.op = "save" -> e.ok /\ stack' = Append(stack, x) /\ UNCHANGED <<cv, imgs, x, free>>
    [] e.op = "restore" -> IF stack = <<>> THEN ~e.ok /\ Keep
                           ELSE e.ok /\ x' = stack[Len(stack)] /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<cv, imgs, free>>
    [] e.op = "fill" -> FillStep
    [] e.op = "clear" -> ClearStep
    [] e.op = "blit" -> BlitStep
    [] e.op = "mask" -> MaskStep
    [] e.op = "check" -> CheckStep
    [] e.op = "any" -> AnyStep
TraceNext == \/ /\ l <= Len(Ev)
                /\ Step
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
=================================================================================
