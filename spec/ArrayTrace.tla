----------------------------- MODULE ArrayTrace -----------------------------
(* Accepts exactly the recorded histories that ArraySpec allows.  One initial state per trace.                       *)
EXTENDS ArraySpec, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
tvars == <<items, t, l>>
Ev == Traces[t].ev
e == Ev[l]

TraceInit == Init /\ t \in 1..Len(Traces) /\ l = 1

\* Success unless stated otherwise by the operation; the logged content and capacity are compared with the new state.
Observed == /\ e.bad = 0
            /\ \A s \in Slots : items'[s] = e.st[s] /\ e.cap[s] >= Len(e.st[s])
Step ==
  CASE e.op \in {"clear", "reset"} -> e.ok /\ Clear(e.s)
    [] e.op \in {"shrink", "nop"}  -> e.ok /\ Keep
    [] e.op = "reserve"   -> e.ok /\ Keep /\ e.cap[e.s] >= e.n
    [] e.op = "resize"    -> e.ok /\ Resize(e.s, e.n, e.v)
    [] e.op = "put"       -> e.ok /\ Put(e.s, e.i, e.v)
    [] e.op = "assign"    -> e.ok /\ Assign(e.s, e.v)
    [] e.op = "assignself"-> e.ok /\ Assign(e.s, Part(e.s, e.i, e.n))
    [] e.op = "append"    -> e.ok /\ Append_(e.s, e.v)
    [] e.op = "appendself"-> e.ok /\ Append_(e.s, Part(e.s, e.i, e.n))
    [] e.op = "insert"    -> e.ok /\ Insert(e.s, e.i, e.v)
    [] e.op = "insertself"-> e.ok /\ Insert(e.s, e.at, Part(e.s, e.i, e.n))
    [] e.op = "replace1"  -> IF e.i < Len(items[e.s]) THEN e.ok /\ Put(e.s, e.i, e.v) ELSE ~e.ok /\ Keep
    [] e.op = "replaceself1" -> e.ok /\ Put(e.s, e.i, items[e.s][e.j + 1])
    [] e.op = "replace"   -> e.ok /\ Replace(e.s, e.i, e.j, e.v)
    [] e.op = "replaceself" -> e.ok /\ Replace(e.s, e.i, e.j, Part(e.s, e.at, e.n))
    [] e.op = "remove"    -> e.ok /\ Remove(e.s, e.i, e.j)
    [] e.op = "copy"      -> e.ok /\ Copy(e.s, e.o)
    [] e.op = "move"      -> e.ok /\ Move(e.s, e.o)
    [] e.op = "external"  -> IF e.cp > 0 /\ e.cp >= Len(e.v) THEN e.ok /\ Assign(e.s, e.v) /\ e.cap[e.s] >= Len(e.v) ELSE ~e.ok /\ Keep
    [] e.op = "equals"    -> e.q = Equal(e.s, e.o) /\ Keep
    [] e.op = "huge"      -> ~e.ok /\ Keep
\* Property C18: an operation that reports out of memory changed nothing.
Refused == Keep
TraceNext == \/ /\ l <= Len(Ev)
                /\ IF e.op = "end" THEN e.live = 0 /\ e.bad = 0 /\ Keep ELSE (IF e.ff /\ e.oom THEN Refused ELSE Step) /\ Observed
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
=============================================================================
