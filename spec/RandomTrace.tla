---------------------------- MODULE RandomTrace ----------------------------
EXTENDS RandomSpec, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, g
vars == <<t, l, g>>
Ev == Traces[t].ev
Slots == 1..3
Zero == <<<<0,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,0>>>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ g = [i \in Slots |-> Zero]
Do(e) ==
  CASE e.op = "seed" -> g' = [g EXCEPT ![e.s] = Seed(e.v)]
    [] e.op = "u64"  -> e.r = Out(g[e.s]) /\ g' = [g EXCEPT ![e.s] = Next(@)]
    [] e.op = "u32"  -> e.r = Out32(g[e.s]) /\ g' = [g EXCEPT ![e.s] = Next(@)]
    [] e.op = "f64"  -> e.r = OutF(g[e.s]) /\ e.exact = 1 /\ g' = [g EXCEPT ![e.s] = Next(@)]
    [] e.op = "copy" -> g' = [g EXCEPT ![e.s] = g[e.b]]
    [] e.op = "eq"   -> e.r = (IF g[e.s] = g[e.b] THEN 1 ELSE 0) /\ UNCHANGED g
    [] e.op = "skip" -> g' = [g EXCEPT ![e.s] = LET R[k \in 0..e.n] == IF k = 0 THEN g[e.s] ELSE Next(R[k - 1]) IN R[e.n]]
    [] OTHER         -> FALSE
\* After every step the state of the generator is the one the recurrence gives.
Seen(e) == "d0" \in DOMAIN e => g'[e.s] = <<e.d0, e.d1>>
TraceNext ==
  \/ /\ l <= Len(Ev) /\ Do(Ev[l]) /\ Seen(Ev[l]) /\ l' = l + 1 /\ UNCHANGED t
  \/ l > Len(Ev) /\ UNCHANGED vars
=============================================================================
