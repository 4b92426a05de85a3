----------------------------- MODULE AsyncTrace -----------------------------
(* Events recorded from asynchronous rendering under the controlled scheduler, checked against RenderBatch; one batch
   state per context. The scheduler runs one thread at a time, so that the order of events is their real order. *)
EXTENDS RenderBatch, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bs
vars == <<t, l, bs>>
Ev == Traces[t].ev
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bs = [c \in 1..8 |-> Idle]
Do(e) ==
  LET B == IF e.op \in {"new", "stuck"} THEN Idle ELSE bs[e.c] Set(x) == bs' = [bs EXCEPT ![e.c] = x] IN
  CASE e.op = "new"   -> UNCHANGED bs
    [] e.op = "flush" -> CanFlush(B, e.nj, e.nc, e.thr, e.nb) /\ Set(AfterFlush(B, e.nj, e.nc, e.thr, e.nb))
    [] e.op = "wb"    -> CanWorkBegin(B, e.w) /\ Set(AfterWorkBegin(B, e.w))
    [] e.op = "jb"    -> CanJobBegin(B, e.w, e.i) /\ Set(AfterJobBegin(B, e.w, e.i))
    [] e.op = "je"    -> CanJobEnd(B, e.w, e.i) /\ Set(AfterJobEnd(B, e.w, e.i))
    [] e.op = "band"  -> CanBand(B, e.w, e.b) /\ Set(AfterBand(B, e.w, e.b))
    [] e.op = "cmds"  -> CanCommands(B, e.w, e.b, e.ix) /\ Set(AfterCommands(B, e.w, e.b))
    [] e.op = "we"    -> CanWorkEnd(B, e.w) /\ Set(AfterWorkEnd(B, e.w))
    [] e.op = "ret"   -> CanReturn(B) /\ Set(AfterReturn(B))
    [] e.op = "touch" -> CanTouch(B) /\ UNCHANGED bs
    [] e.op = "img"   -> B = Idle /\ e.rows = e.ref /\ UNCHANGED bs
    [] OTHER          -> FALSE
TraceNext ==
  \/ /\ l <= Len(Ev) /\ Do(Ev[l]) /\ l' = l + 1 /\ UNCHANGED t
  \/ l > Len(Ev) /\ UNCHANGED vars
=============================================================================
