------------------------------ MODULE TwinTrace ---------------------------------
(* A synchronous context and a multithreaded one run the same program.                                    *)
(* Abstractly the multithreaded context is the synchronous one with a queue in front: `queued` commands   *)
(* are visible to the user only after a synchronising flush or the end of rendering, and then all of them *)
(* are.  The image contents are opaque here (one number per row); CanvasSpec says what they must be.      *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, queued, live
tvars == <<t, l, queued, live>>
Ev == Traces[t].ev
e == Ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ queued = 0 /\ live = FALSE
Same == e.rows = e.ref
TraceNext ==
  \/ /\ l <= Len(Ev) /\ l' = l + 1 /\ t' = t
     /\ CASE e.op = "new" -> /\ ~live /\ e.oks /\ e.okm /\ Same /\ Len(e.rows) = e.h
                             /\ live' = TRUE /\ queued' = 0
          [] e.op = "sync" -> /\ live
                              /\ queued' = 0            \* nothing submitted before the flush is pending after it
                              /\ Same                   \* every row shows exactly what the synchronous context produced
                              /\ e.sm = e.ss            \* the state the user sees is the same too
                              /\ UNCHANGED live
          [] e.op = "end" -> /\ live /\ Same /\ e.sm = e.ss
                             /\ \A i \in 1..Len(e.own) : e.own[i] = 1   \* every source belongs to the user alone again
                             /\ live' = FALSE /\ queued' = 0
  \/ l > Len(Ev) /\ UNCHANGED tvars
==================================================================================
