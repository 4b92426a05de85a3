------------------------------- MODULE FillTrace ---------------------------------
EXTENDS CoverageSpec, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
tvars == <<t, l>>
Ev == Traces[t].ev
e == Ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1
Ok(r) == LET es == Flat(e.figs) ps == Parts(es, r) row == e.al[r + 1] IN
  IF r < e.clip[2] \/ r >= e.clip[4] \/ ps = <<>> THEN \A c \in 1..e.w : row[c] = 0
  ELSE \A c \in 0..(e.w - 1) : IF c < e.clip[1] \/ c >= e.clip[3] THEN row[c + 1] = 0
                               ELSE AlphaIs(row[c + 1], Fold(Sum(ps, 1, c), e.rule), Slanted(ps, c))
TraceNext == \/ /\ l <= Len(Ev)
                /\ IF e.op = "end" THEN e.live = 0 /\ e.bad = 0 ELSE e.ok /\ e.out = 0 /\ \A r \in 0..(e.h - 1) : Ok(r)
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
==================================================================================
