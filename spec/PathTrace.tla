--------------------------------- MODULE PathTrace ---------------------------------
EXTENDS PathSpec, Json, IOUtils, TLC
CONSTANT Slots
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ps, t, l
tvars == <<ps, t, l>>
Ev == Traces[t].ev
e == Ev[l]
TraceInit == ps = [k \in Slots |-> <<>>] /\ t \in 1..Len(Traces) /\ l = 1
Set(k, q) == ps' = [ps EXCEPT ![k] = q]
Keep == UNCHANGED ps
X == ps[e.s]
App(q) == Set(e.s, X \o q)
Observed == e.bad = 0 /\ \A k \in Slots : ps'[k] = e.st[k] /\ e.cap[k] >= Len(e.st[k])
Sq(x) == x * x
Dist(i) == Sq(X[i][2] - e.x) + Sq(X[i][3] - e.y)
Closest == LET c == {i \in Points(X) : e.md = 0 \/ Dist(i) < Sq(e.md)} IN IF c = {} THEN 0 ELSE Min_({i \in c : \A k \in c : Dist(i) <= Dist(k)})
Step ==
  CASE e.op = "clear" -> e.ok /\ Set(e.s, <<>>)
    [] e.op = "keep"  -> Keep
    [] e.op = "huge" -> ~e.ok /\ Keep
    [] e.op = "reserve" -> e.ok /\ Keep /\ e.cap[e.s] >= e.n
    [] e.op = "copy"  -> e.ok /\ Set(e.s, ps[e.o])
    [] e.op = "move"  -> e.ok /\ ps' = IF e.s = e.o THEN ps ELSE [ps EXCEPT ![e.s] = ps[e.o], ![e.o] = <<>>]
    [] e.op = "app"   -> e.ok /\ App(e.c)
    [] e.op = "poly"  -> e.ok /\ App([i \in 1..Len(e.p) |-> V(ON, e.p[i])])
    [] e.op = "squad" -> IF Open(X) THEN e.ok /\ App(<<V(QUAD, Reflect(X, QUAD)), <<ON, e.x, e.y>>>>) ELSE ~e.ok /\ Keep
    [] e.op = "scubic" -> IF Open(X) THEN e.ok /\ App(<<V(CUBIC, Reflect(X, CUBIC)), <<CUBIC, e.x2, e.y2>>, <<ON, e.x, e.y>>>>) ELSE ~e.ok /\ Keep
    [] e.op = "setv"  -> IF e.i < Len(X) THEN e.ok /\ Set(e.s, [X EXCEPT ![e.i + 1] = <<IF e.c = -1 THEN X[e.i + 1][1] ELSE e.c, e.x, e.y>>]) ELSE ~e.ok /\ Keep
    [] e.op = "box"   -> e.ok /\ App(MapAll(e.m, Box(e.p[1], e.p[2], e.ccw)))
    [] e.op = "figure" -> e.ok /\ App(MapAll(e.m, Figure(e.p, e.closed, e.ccw)))
    [] e.op = "boxes" -> e.ok /\ App(MapAll(e.m, AllBoxes(e.bs, e.ccw)))
    [] e.op = "add"   -> e.ok /\ App(MapAll(e.m, Slice(ps[e.o], e.a, e.b)))
    [] e.op = "addrev" -> LET q == Slice(ps[e.o], e.a, e.b) IN
                          IF Reversible(q) THEN e.ok /\ App(MapAll(e.m, Reversed(q, e.sep)))
                          ELSE LET n == e.st[e.s] IN IF e.ok THEN Len(n) >= Len(X) /\ Len(n) <= Len(X) + Len(q) /\ SubSeq(n, 1, Len(X)) = X /\ Set(e.s, n) ELSE Keep
    [] e.op = "remove" -> e.ok /\ (IF e.a < e.b THEN Set(e.s, Slice(X, 0, e.a) \o Slice(X, e.b, Len(X))) ELSE Keep)
    [] e.op = "xform" -> e.ok /\ Set(e.s, MapRange(e.m, X, e.a, e.b))
    [] e.op = "fit"   -> LET b == ControlBox(X) sx == e.p[2][1] \div (b[3] - b[1]) sy == e.p[2][2] \div (b[4] - b[2]) IN
                         e.ok /\ Set(e.s, MapAll(<<sx, 0, 0, sy, e.p[1][1] - b[1] * sx, e.p[1][2] - b[2] * sy>>, X))
    [] e.op = "info"  -> /\ Keep
                         /\ LET v == IF Finite(X) THEN Parse(X, 1, FALSE) ELSE "dc" IN
                            CASE v = "dc" -> TRUE
                              [] v = "bad" -> ~e.i1 /\ ~e.i2 /\ ~e.i3
                              [] OTHER -> /\ e.i1 /\ e.i2 /\ e.i3 /\ e.fl = Flags(X)
                                          /\ IF Points(X) = {} THEN e.cb = <<0, 0, 0, 0>> /\ e.bb = <<0, 0, 0, 0>>
                                             ELSE e.cb = ControlBox(X) /\ BoundsOK(X, 2, e.bb[1], e.bb[3]) /\ BoundsOK(X, 3, e.bb[2], e.bb[4])
    [] e.op = "parts" -> /\ Keep
                         /\ IF e.i >= Len(X) THEN ~e.fok ELSE e.fok /\ (Figured(X) => e.fa + 1 = FigStart(X, e.i + 1) /\ e.fb = FigEnd(X, e.i + 1))
                         /\ LET v == LastVertex(X) IN IF v = 0 THEN ~e.lok ELSE e.lok /\ e.lx = X[v][2] /\ e.ly = X[v][3]
    [] e.op = "closest" -> Keep /\ LET c == Closest IN IF c = 0 THEN ~e.found ELSE e.found /\ e.rok /\ e.ix + 1 = c /\ e.d2 = Dist(c)
    [] e.op = "equals" -> Keep /\ e.q = (X = ps[e.o])
\* Property C18: an operation that reports out of memory changed nothing.
Refused == Keep
TraceNext == \/ /\ l <= Len(Ev)
                /\ IF e.op = "end" THEN e.live = 0 /\ e.bad = 0 /\ Keep ELSE (IF e.ff /\ e.oom THEN Refused ELSE Step) /\ Observed
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
====================================================================================
