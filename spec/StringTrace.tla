----------------------------- MODULE StringTrace -----------------------------
(* Strings are ArraySpec sequences over bytes, with order, search and a terminating zero (property C02).             *)
EXTENDS ArraySpec, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
tvars == <<items, t, l>>
Ev == Traces[t].ev
e == Ev[l]
TraceInit == Init /\ t \in 1..Len(Traces) /\ l = 1

Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
SetMin(X) == CHOOSE x \in X : \A y \in X : x <= y
SetMax(X) == CHOOSE x \in X : \A y \in X : x >= y
Compare(a, b) == LET d == {i \in 1..Min(Len(a), Len(b)) : a[i] # b[i]} IN
                 IF d = {} THEN Sign(Len(a) - Len(b)) ELSE LET i == SetMin(d) IN Sign(a[i] - b[i])
IndexOf(q, c, from) == LET d == {i \in 1..Len(q) : q[i] = c /\ i > from} IN IF d = {} THEN -1 ELSE SetMin(d) - 1
LastIndexOf(q, c, from) == LET d == {i \in 1..Len(q) : q[i] = c /\ i <= from + 1} IN IF d = {} THEN -1 ELSE SetMax(d) - 1

Observed == /\ e.bad = 0
            /\ \A s \in Slots : items'[s] = e.st[s] /\ e.cap[s] >= Len(e.st[s]) /\ e.term[s] = 0
Step ==
  CASE e.op \in {"clear", "reset"} -> e.ok /\ Clear(e.s)
    [] e.op = "shrink"    -> e.ok /\ Keep
    [] e.op = "reserve"   -> e.ok /\ Keep /\ e.cap[e.s] >= e.n
    [] e.op = "resize"    -> e.ok /\ Resize(e.s, e.n, e.v)
    [] e.op = "put"       -> e.ok /\ Put(e.s, e.i, e.v)
    [] e.op = "assign"    -> e.ok /\ Assign(e.s, e.v)
    [] e.op = "assignself"-> e.ok /\ Assign(e.s, Part(e.s, e.i, e.n))
    [] e.op = "append"    -> e.ok /\ Append_(e.s, e.v)
    [] e.op = "appendself"-> e.ok /\ Append_(e.s, Part(e.s, e.i, e.n))
    [] e.op = "appendof"  -> e.ok /\ Append_(e.s, items[e.o])
    [] e.op = "insert"    -> e.ok /\ Insert(e.s, e.i, e.v)
    [] e.op = "insertself"-> e.ok /\ Insert(e.s, e.at, Part(e.s, e.i, e.n))
    [] e.op = "insertof"  -> e.ok /\ Insert(e.s, e.i, items[e.o])
    [] e.op = "remove"    -> e.ok /\ Remove(e.s, e.i, e.j)
    [] e.op = "copy"      -> e.ok /\ Copy(e.s, e.o)
    [] e.op = "move"      -> e.ok /\ Move(e.s, e.o)
    [] e.op = "compare"   -> e.q = Equal(e.s, e.o) /\ e.c = Compare(items[e.s], items[e.o]) /\ Keep
    [] e.op = "comparedata" -> e.q = (items[e.s] = e.v) /\ e.c = Compare(items[e.s], e.v) /\ Keep
    [] e.op = "find"      -> LET q == items[e.s] IN
                             e.q = <<IndexOf(q, e.v, 0), IndexOf(q, e.v, e.i), LastIndexOf(q, e.v, Len(q)), LastIndexOf(q, e.v, e.i)>> /\ Keep
    [] e.op = "huge"      -> ~e.ok /\ Keep
\* Property C18: an operation that reports out of memory changed nothing.
Refused == Keep
TraceNext == \/ /\ l <= Len(Ev)
                /\ IF e.op = "end" THEN e.live = 0 /\ e.bad = 0 /\ Keep ELSE (IF e.ff /\ e.oom THEN Refused ELSE Step) /\ Observed
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
=============================================================================
