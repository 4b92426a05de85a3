-------------------------------- MODULE HitTrace ---------------------------------
EXTENDS GeometrySpec, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
tvars == <<t, l>>
Ev == Traces[t].ev
e == Ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1
Margin == IF e.curved THEN 1 + e.margin ELSE 0
HitOk == TRUE = (\E ps \in {Pieces(e.figs)} : \A i \in 1..Len(e.pts) : \A p \in {e.pts[i]} :
   (\E k \in 1..Len(ps) : Touches(ps[k], p, Margin)) \/ e.hit[i] = IF Inside(Winding(ps, 1, p), e.rule) THEN 0 ELSE 2)
Step == CASE e.op = "hit" -> HitOk
          [] e.op = "end" -> e.live = 0 /\ e.bad = 0
TraceNext == \/ l <= Len(Ev) /\ Step /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
==================================================================================
