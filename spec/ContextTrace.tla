-------------------------------- MODULE ContextTrace -------------------------------
EXTENDS ContextSpec, Json, IOUtils, TLC, FiniteSets
CONSTANT Slots
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES on, x, stack, lim, t, l
cvars == <<on, x, stack, lim>>
tvars == <<on, x, stack, lim, t, l>>
Ev == Traces[t].ev
e == Ev[l]
TraceInit == on = FALSE /\ x = Fresh /\ stack = <<>> /\ lim = 0 /\ t \in 1..Len(Traces) /\ l = 1
Keep == UNCHANGED cvars
Set(y) == x' = y /\ UNCHANGED <<on, stack, lim>>
If(valid, y) == IF valid THEN e.ok /\ Set(y) ELSE ~e.ok /\ Keep
SlotOk == e.s \in 1..2
Observed == /\ e.bad = 0
            /\ e.st.on = on'
            /\ on' => LET y == x' z == e.st IN
                 /\ z.op = y.op /\ z.rule = y.rule /\ z.hint = y.hint /\ z.ga = y.ga /\ z.sa = y.sa /\ z.stroke = y.stroke /\ z.dash = y.dash
                 /\ z.appr = y.appr /\ z.user = y.user /\ z.meta = y.meta /\ z.fin = Final(y) /\ z.style = y.style
                 /\ z.saved = Len(stack') /\ z.same
\* Outer pixels of a clip box.
OuterLo(v) == v \div 64
OuterHi(v) == (v + 63) \div 64
\* Pixels the white fill leaves visible: the pixel's alpha is round-ish(cover * 255 / 64), zero when below half a level.
AlphaOk(cov, a) == LET w == (cov * 255) IN a * 4096 >= w - 4096 - 64 /\ a * 4096 <= w + 4096 + 64      \* cov in 1/4096
\* cov: coverage per axis product in 1/4096
ClipSeen == LET b == x.clip IN
  IF Empty(b) THEN e.box = <<>>
  ELSE LET ob == <<OuterLo(b[1]), OuterLo(b[2]), OuterHi(b[3]), OuterHi(b[4])>> my == (ob[2] + ob[4]) \div 2 mx == (ob[1] + ob[3]) \div 2 w == ob[3] - ob[1] IN
       /\ e.box = ob
       /\ Len(e.al) = w + ob[4] - ob[2]
       /\ \A i \in 1..w : AlphaOk(Cover(b[1], b[3], ob[1] + i - 1) * Cover(b[2], b[4], my), e.al[i])
       /\ \A i \in 1..(ob[4] - ob[2]) : AlphaOk(Cover(b[1], b[3], mx) * Cover(b[2], b[4], ob[2] + i - 1), e.al[w + i])
Adjust(y, m, mode) == M!Mul(m, IF mode = 0 THEN Final(y) ELSE IF mode = 1 THEN y.meta ELSE M!Id)
Step ==
  CASE e.op = "begin" -> e.ok /\ on' = TRUE /\ x' = Fresh /\ stack' = <<>> /\ lim' = e.lim
    [] e.op = "end" -> e.ok /\ on' = FALSE /\ x' = Fresh /\ stack' = <<>> /\ lim' = 0
    [] e.op = "compop" -> If(e.v \in 0..28, [x EXCEPT !.op = e.v])
    [] e.op = "rule" -> If(e.v \in 0..1, [x EXCEPT !.rule = e.v])
    [] e.op = "galpha" -> If(~e.nan, [x EXCEPT !.ga = Unit(e.v)])
    [] e.op = "salpha" -> If(SlotOk /\ ~e.nan, [x EXCEPT !.sa[e.s] = Unit(e.v)])
    [] e.op = "style" -> If(SlotOk, [x EXCEPT !.style[e.s] = e.v])
    [] e.op = "object" -> If(SlotOk, [x EXCEPT !.style[e.s] = <<9, e.id>> \o Adjust(x, e.m, e.mode)])
    [] e.op = "swap" -> If(e.v \in 0..1, [x EXCEPT !.style = <<x.style[2], x.style[1]>>, !.sa = IF e.v = 1 THEN <<x.sa[2], x.sa[1]>> ELSE x.sa])
    [] e.op = "hint" -> If(e.i < 3 /\ ValidHints([x.hint EXCEPT ![e.i + 1] = e.v]), [x EXCEPT !.hint[e.i + 1] = e.v])
    [] e.op = "hints" -> If(ValidHints(e.v), [x EXCEPT !.hint = e.v])
    [] e.op = "fmode" -> If(e.v \in 0..1, [x EXCEPT !.appr[1] = e.v])
    [] e.op = "ftol" -> If(~e.nan, [x EXCEPT !.appr[2] = Tol(e.v)])
    [] e.op = "appr" -> If(ValidAppr(e.v) /\ ~e.nan, [x EXCEPT !.appr = [e.v EXCEPT ![2] = Tol(e.v[2])]])
    [] e.op = "snum" -> If(TRUE, [x EXCEPT !.stroke[e.i] = e.v])
    [] e.op = "cap" -> If(e.p \in 0..1 /\ e.v \in 0..5, [x EXCEPT !.stroke[3 + e.p] = e.v])
    [] e.op = "caps" -> If(e.v \in 0..5, [x EXCEPT !.stroke[3] = e.v, !.stroke[4] = e.v])
    [] e.op = "join" -> If(e.v \in 0..4, [x EXCEPT !.stroke[5] = e.v])
    [] e.op = "order" -> If(e.v \in 0..1, [x EXCEPT !.stroke[6] = e.v])
    [] e.op = "sopts" -> If(ValidStroke(e.v), [x EXCEPT !.stroke = e.v, !.dash = e.d])
    [] e.op = "dash" -> If(TRUE, [x EXCEPT !.dash = e.v])
    [] e.op = "xform" -> If(TRUE, [x EXCEPT !.user = M!Apply(x.user, e.k, e.d, e.m)])
    [] e.op = "tometa" -> If(TRUE, [x EXCEPT !.meta = Final(x), !.user = M!Id])
    [] e.op = "clip" -> If(TRUE, [x EXCEPT !.clip = Meet(x.clip, Mapped(Final(x), [i \in 1..4 |-> e.v[i] * 16]))])
    [] e.op = "clipfar" -> If(TRUE, IF e.out THEN [x EXCEPT !.clip = NoBox] ELSE x)
    [] e.op = "unclip" -> If(TRUE, [x EXCEPT !.clip = IF stack = <<>> THEN Whole ELSE stack[Len(stack)].x.clip])
    [] e.op = "save" -> IF Len(stack) < lim THEN e.ok /\ stack' = Saved(stack, x, e.c) /\ UNCHANGED <<on, x, lim>> ELSE ~e.ok /\ Keep
    [] e.op = "restore" -> IF CanRestore(stack, e.c) THEN e.ok /\ LET i == RestoreTo(stack, e.c) IN x' = stack[i].x /\ stack' = SubSeq(stack, 1, i - 1) /\ UNCHANGED <<on, lim>>
                           ELSE ~e.ok /\ Keep
    [] e.op = "clipis" -> Keep /\ ClipSeen
    [] e.op = "drawn" -> Keep /\ e.out = 0 /\ IF x.clip = Whole THEN e.diff = 0 ELSE e.diff <= 6
TraceNext == \/ /\ l <= Len(Ev)
                /\ IF e.op = "fin" THEN e.live = 0 /\ e.bad = 0 /\ Keep ELSE Step /\ Observed
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
====================================================================================
