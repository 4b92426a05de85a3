-------------------------------- MODULE GradientTrace --------------------------------
EXTENDS GradientSpec, Json, IOUtils, TLC
CONSTANT Slots
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES gs, t, l
tvars == <<gs, t, l>>
Ev == Traces[t].ev
e == Ev[l]
TraceInit == gs = [k \in Slots |-> Blank] /\ t \in 1..Len(Traces) /\ l = 1
X == gs[e.s]
Set(x) == gs' = [gs EXCEPT ![e.s] = x]
SetStops(q) == Set([X EXCEPT !.stops = q])
Keep == UNCHANGED gs
Min(a, b) == IF a < b THEN a ELSE b
Observed == e.bad = 0 /\ \A k \in Slots : LET x == gs'[k] y == e.st[k] IN
  /\ x.type = y.type /\ x.ext = y.ext /\ x.val = y.val /\ x.m = y.m /\ x.stops = y.stops
  /\ y.tt \in M!Types(x.m) /\ y.room /\ WellFormed(x.stops)
\* valid arguments succeed, invalid ones change nothing
If(valid, act) == IF valid THEN e.ok /\ act ELSE ~e.ok /\ Keep
SameUsed(x, y) == \A i \in 1..Used(x.type) : x.val[i] = y.val[i]
Step ==
  CASE e.op = "clear" -> e.ok /\ Set(Blank)
    [] e.op = "huge" -> ~e.ok /\ Keep
    [] e.op = "keep" -> e.ok /\ Keep
    [] e.op = "copy" -> e.ok /\ Set(gs[e.o])
    [] e.op = "move" -> e.ok /\ gs' = IF e.s = e.o THEN gs ELSE [gs EXCEPT ![e.s] = gs[e.o], ![e.o] = Blank]
    [] e.op = "create" -> If(e.type \in 0..2 /\ e.ext \in 0..2 /\ AllValid(e.new),
                             Set([type |-> e.type, ext |-> e.ext, val |-> [i \in 1..6 |-> IF i <= Used(e.type) THEN e.val[i] ELSE 0], m |-> e.m, stops |-> Sorted(e.new, <<>>)]))
    [] e.op = "type" -> If(e.v \in 0..2, Set([X EXCEPT !.type = e.v]))
    [] e.op = "ext" -> If(e.v \in 0..2, Set([X EXCEPT !.ext = e.v]))
    [] e.op = "vals" -> If(e.i < 6 /\ e.i + Len(e.v) <= 6, Set([X EXCEPT !.val = [i \in 1..6 |-> IF e.i < i /\ i <= e.i + Len(e.v) THEN e.v[i - e.i] ELSE X.val[i]]]))
    [] e.op = "assign" -> If(AllValid(e.new), SetStops(Sorted(e.new, <<>>)))
    [] e.op = "add" -> If(ValidOffset(Off(e.new)), SetStops(Add(X.stops, e.new)))
    [] e.op = "rmrange" -> LET b == Min(e.b, Len(X.stops)) IN If(e.a <= b, SetStops(RemoveAt(X.stops, e.a, b)))
    [] e.op = "rmoff" -> If(ValidOffset(e.f), LET i == First(X.stops, LAMBDA s : Off(s) = e.f) IN
                            IF i = 0 THEN Keep ELSE SetStops(RemoveAt(X.stops, i - 1, IF e.all THEN i - 1 + Count(X.stops, e.f) ELSE i)))
    [] e.op = "rmoffs" -> If(e.f <= e.h, SetStops(SelectSeq(X.stops, LAMBDA s : Off(s) < e.f \/ Off(s) > e.h)))
    [] e.op = "replace" -> If(e.i < Len(X.stops) /\ ValidOffset(Off(e.new)), SetStops(Replace(X.stops, e.i + 1, e.new)))
    [] e.op = "index" -> Keep /\ e.r = First(X.stops, LAMBDA s : Off(s) = e.f) - 1
    [] e.op = "xform" -> e.ok /\ Set([X EXCEPT !.m = M!Apply(X.m, e.k, e.d, e.m)])
    [] e.op = "equals" -> Keep /\ LET y == gs[e.o] same == X.type = y.type /\ X.ext = y.ext /\ X.m = y.m /\ X.stops = y.stops IN
                          (X = y /\ ~e.nz => e.q) /\ (e.q => same /\ SameUsed(X, y))
    [] e.op = "draw" -> Keep /\ (e.ff \/ e.same)
\* Property C18: an operation that reports out of memory changed nothing.
Refused == Keep
TraceNext == \/ /\ l <= Len(Ev)
                /\ IF e.op = "end" THEN e.live = 0 /\ e.bad = 0 /\ Keep ELSE (IF e.ff /\ e.oom THEN Refused ELSE Step) /\ Observed
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
=====================================================================================
