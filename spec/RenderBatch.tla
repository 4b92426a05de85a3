---------------------------- MODULE RenderBatch ----------------------------
(* One rendering batch of an asynchronous context, as its user understands it: jobs are executed once each, the
   commands start after the last job, every band belongs to one worker which executes commands in the order they were
   queued, and the flush returns after everything is done. State of a batch is a record; Can* are the enabling
   conditions of the steps and After* their effects, so that the same steps are used by the design model (RenderSync),
   by this module's own state machine and by the trace specification (AsyncTrace). *)
EXTENDS Integers, Sequences, FiniteSets
Idle == [ph |-> "idle", nj |-> 0, nc |-> 0, thr |-> 0, nb |-> 0, begun |-> {}, ended |-> {}, owner |-> {}, closed |-> {},
         act |-> {}, fin |-> {}]
CanFlush(b, nj, nc, thr, nb) == b.ph = "idle" /\ nc > 0 /\ nb > 0 /\ thr >= 0
AfterFlush(b, nj, nc, thr, nb) == [Idle EXCEPT !.ph = "run", !.nj = nj, !.nc = nc, !.thr = thr, !.nb = nb]
CanWorkBegin(b, w) == b.ph = "run" /\ w \notin b.act \cup b.fin /\ Cardinality(b.act \cup b.fin) <= b.thr
AfterWorkBegin(b, w) == [b EXCEPT !.act = @ \cup {w}]
CanJobBegin(b, w, i) == b.ph = "run" /\ w \in b.act /\ i \in 1..b.nj /\ i \notin b.begun
AfterJobBegin(b, w, i) == [b EXCEPT !.begun = @ \cup {i}]
CanJobEnd(b, w, i) == w \in b.act /\ i \in b.begun /\ i \notin b.ended
AfterJobEnd(b, w, i) == [b EXCEPT !.ended = @ \cup {i}]
CanBand(b, w, k) == b.ph = "run" /\ w \in b.act /\ Cardinality(b.ended) = b.nj /\ k \in 0..b.nb - 1 /\ \A o \in b.owner : o[1] # k
AfterBand(b, w, k) == [b EXCEPT !.owner = @ \cup {<<k, w>>}]
CanCommands(b, w, k, ix) == w \in b.act /\ <<k, w>> \in b.owner /\ k \notin b.closed
                            /\ \A i \in 1..Len(ix) : ix[i] \in 1..b.nc /\ (i > 1 => ix[i - 1] < ix[i])
AfterCommands(b, w, k) == [b EXCEPT !.closed = @ \cup {k}]
CanWorkEnd(b, w) == w \in b.act /\ Cardinality(b.ended) = b.nj /\ \A o \in b.owner : o[2] = w => o[1] \in b.closed
AfterWorkEnd(b, w) == [b EXCEPT !.act = @ \ {w}, !.fin = @ \cup {w}]
CanReturn(b) == b.ph = "run" /\ b.act = {} /\ Cardinality(b.fin) = b.thr + 1 /\ Cardinality(b.ended) = b.nj
                /\ Cardinality(b.closed) = b.nb
AfterReturn(b) == Idle
\* A worker may use the synchronisation data only while its batch is running.
CanTouch(b) == b.ph = "run"
=============================================================================
