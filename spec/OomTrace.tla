------------------------------ MODULE OomTrace ------------------------------
(* C18 for whole operations. An operation is abstracted to the function that maps the objects it is given to a code and a result.
   Running it with failing allocations may only
     - report that memory ran out, the objects it would have replaced keeping their values, or
     - do without the memory: the code and result of an undisturbed run;
   either way the objects it was given keep their values, all memory is released once, and the operation can be repeated. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, ref
vars == <<t, l, ref>>
Ev == Traces[t].ev
OutOfMemory == 65536
Init == t \in 1..Len(Traces) /\ l = 1 /\ ref = [rc |-> -1, hash |-> -1]
Clean(e) == e.leak = 0 /\ e.bad = 0 /\ e.world
Same(e, r) == e.rc = r.rc /\ e.hash = r.hash
Repeatable(e, r) == e.rc2 = r.rc /\ e.hash2 = r.hash
Ok(e) ==
  /\ Clean(e)
  /\ CASE e.op = "ref" -> e.rc # OutOfMemory /\ Repeatable(e, e)
       [] OTHER -> /\ IF e.ff > 0 /\ e.rc = OutOfMemory THEN e.kept ELSE Same(e, ref)
                   /\ Repeatable(e, ref)
After(e) == IF e.op = "ref" THEN [rc |-> e.rc, hash |-> e.hash] ELSE ref
TraceNext ==
  \/ /\ l <= Len(Ev) /\ (Ok(Ev[l]) = TRUE) /\ l' = l + 1 /\ ref' = After(Ev[l]) /\ UNCHANGED t
  \/ l > Len(Ev) /\ UNCHANGED vars
=============================================================================
