------------------------------- MODULE BitSetTrace ---------------------------------
(* Property C05.  Indexes in the traces are biased by -2^31; Last stands for the index 2^32-1, which cannot be stored. *)
EXTENDS BitSetSpec, Json, IOUtils, TLC
CONSTANT Slots
Traces == ndJsonDeserialize(IOEnv.TRACE)
Last == 2147483647
VARIABLES bs, t, l
tvars == <<bs, t, l>>
Ev == Traces[t].ev
e == Ev[l]
TraceInit == bs = [k \in Slots |-> Empty] /\ t \in 1..Len(Traces) /\ l = 1
ToS(q) == {q[i] : i \in DOMAIN q}
Rec(s, n) == [st |-> ToS(s), en |-> ToS(n)]
Set(k, A) == bs' = [bs EXCEPT ![k] = A]
Keep == UNCHANGED bs
I == Interval(e.a, e.b)
\* Ranges: start > end is invalid.
RangeOp(A) == IF e.a > e.b THEN ~e.ok /\ Keep ELSE e.ok /\ A
BitOp(A) == IF e.a = Last THEN ~e.ok /\ Keep ELSE e.ok /\ A
RECURSIVE Join(_, _)
Join(q, A) == IF q = <<>> THEN A ELSE Join(Tail(q), Union(A, Interval(q[1][1], q[1][2])))
Observed == e.bad = 0 /\ e.wf /\ \A k \in Slots : bs'[k] = Rec(e.st[k], e.en[k])
                                /\ (e.cards # <<>> => e.cards[k] = Card(bs'[k]))
X == bs[e.s]
Step ==
  CASE e.op = "clear" -> e.ok /\ Set(e.s, Empty)
    [] e.op = "keep"  -> e.ok /\ Keep
    [] e.op = "copy"  -> e.ok /\ Set(e.s, bs[e.o])
    [] e.op = "move"  -> e.ok /\ bs' = IF e.s = e.o THEN bs ELSE [bs EXCEPT ![e.s] = bs[e.o], ![e.o] = Empty]
    [] e.op = "assignrange" -> RangeOp(Set(e.s, I))
    [] e.op = "addrange" -> RangeOp(Set(e.s, Union(X, I)))
    [] e.op = "clearrange" -> RangeOp(Set(e.s, Minus(X, I)))
    [] e.op = "chop" -> RangeOp(Set(e.s, Intersect(X, I)))
    [] e.op = "addbit" -> BitOp(Set(e.s, Union(X, Interval(e.a, e.a + 1))))
    [] e.op = "clearbit" -> BitOp(Set(e.s, Minus(X, Interval(e.a, e.a + 1))))
    [] e.op = "add" -> IF e.valid THEN e.ok /\ Set(e.s, Union(X, Rec(e.ws, e.we))) ELSE ~e.ok /\ Keep
    [] e.op = "assign" -> IF e.valid THEN e.ok /\ Set(e.s, Rec(e.ws, e.we)) ELSE ~e.ok /\ Keep
    [] e.op = "build" -> e.ok /\ Set(e.s, Join(e.parts, X))
    [] e.op = "query" -> /\ e.card = Card(X) /\ e.cardr = Card(Intersect(X, I)) /\ e.same
                         /\ e.has = In(e.a, X) /\ e.hasr = ~IsEmpty(Intersect(X, I)) /\ e.empty = IsEmpty(X)
                         /\ e.gr = ~IsEmpty(X) /\ (e.gr => e.rs = Min(X.st) /\ e.re = Max(X.en)) /\ Keep
    [] e.op = "relate" -> LET Y == bs[e.o] IN /\ e.eq = (X = Y) /\ e.c = Compare(X, Y) /\ e.sub = Subset(Y, X)
                          /\ e.isec = ~IsEmpty(Intersect(X, Y)) /\ Keep
    [] e.op = "iterate" -> e.ord /\ X = Rec(e.is, e.ie) /\ Keep
\* Property C18: an operation that reports out of memory changed nothing (a builder flushes in several steps, each one whole).
Refused == IF e.op = "build" THEN LET n == Rec(e.st[e.s], e.en[e.s]) IN
                Subset(X, n) /\ Subset(n, Join(e.parts, X)) /\ Set(e.s, n) ELSE Keep
TraceNext == \/ /\ l <= Len(Ev)
                /\ IF e.op = "end" THEN e.live = 0 /\ e.bad = 0 /\ Keep ELSE (IF e.ff /\ e.oom THEN Refused ELSE Step) /\ Observed
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
====================================================================================
