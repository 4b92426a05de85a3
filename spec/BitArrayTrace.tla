------------------------------ MODULE BitArrayTrace --------------------------------
EXTENDS BitArraySpec, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
tvars == <<ba, t, l>>
Ev == Traces[t].ev
e == Ev[l]
TraceInit == Init /\ t \in 1..Len(Traces) /\ l = 1
ToS(q) == {q[i] : i \in DOMAIN q}
Observed == e.bad = 0 /\ TypeOK' /\ \A k \in Slots : ba'[k] = [n |-> e.n[k], s |-> ToS(e.st[k])] /\ e.cap[k] >= e.n[k]
W == ToS(e.w)
Step ==
  CASE e.op = "clear"  -> e.ok /\ Set(e.s, 0, {})
    [] e.op = "shrink" -> e.ok /\ Keep
    [] e.op = "reserve" -> e.ok /\ Keep /\ e.cap[e.s] >= e.m
    [] e.op = "resize" -> e.ok /\ Resize(e.s, e.m)
    [] e.op = "copy"   -> e.ok /\ ba' = [ba EXCEPT ![e.s] = ba[e.o]]
    [] e.op = "move"   -> e.ok /\ ba' = IF e.s = e.o THEN ba ELSE [ba EXCEPT ![e.s] = ba[e.o], ![e.o] = Empty]
    [] e.op = "assignwords" -> e.ok /\ Set(e.s, 32 * e.wn, W)
    [] e.op = "setbit" -> Guarded(e.s, e.i, e.ok, SetBit(e.s, e.i, e.v))
    [] e.op = "range"  -> IF e.i < e.j THEN Guarded(e.s, e.i, e.ok, Range(e.s, e.i, e.j, e.v)) ELSE ~e.ok /\ Keep
    [] e.op = "fillwords" -> Guarded(e.s, e.i, e.ok, FillWords(e.s, e.i, W))
    [] e.op = "clearwords" -> Guarded(e.s, e.i, e.ok, ClearWords(e.s, e.i, W))
    [] e.op = "replacewords" -> Guarded(e.s, e.i, e.ok, ReplaceWords(e.s, e.i, W, e.wn))
    [] e.op = "appendbit" -> e.ok /\ AppendBit(e.s, e.v)
    [] e.op = "appendwords" -> e.ok /\ AppendWords(e.s, W, e.wn)
    [] e.op = "replaceop" -> e.ok /\ e.z /\ Set(e.s, e.m, W)
    [] e.op = "query" -> LET r == {x \in B(e.s) : x >= e.i /\ x < e.j} IN
         /\ e.card = Cardinality(B(e.s)) /\ e.cardr = Cardinality(r) /\ e.has = (e.i \in B(e.s)) /\ e.hasr = (r # {})
         /\ e.gr = (B(e.s) # {}) /\ e.rs = (IF B(e.s) = {} THEN 0 ELSE SetMin(B(e.s))) /\ e.re = (IF B(e.s) = {} THEN 0 ELSE SetMax(B(e.s)) + 1)
         /\ e.empty = (N(e.s) = 0) /\ e.wc = (N(e.s) + 31) \div 32 /\ Keep
    [] e.op = "relate" -> /\ e.eq = (ba[e.s] = ba[e.o]) /\ e.c = Compare(ba[e.s], ba[e.o])
                          /\ e.sub = (B(e.o) \subseteq B(e.s)) /\ e.isec = (B(e.s) \cap B(e.o) # {}) /\ Keep
\* Property C18: an operation that reports out of memory changed nothing.
Refused == Keep
TraceNext == \/ /\ l <= Len(Ev)
                /\ IF e.op = "end" THEN e.live = 0 /\ e.bad = 0 /\ Keep ELSE (IF e.ff /\ e.oom THEN Refused ELSE Step) /\ Observed
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
====================================================================================
