---------------------------- MODULE UnicodeTrace ----------------------------
(* `trail` bytes follow the last whole unit of the source. *)
EXTENDS UnicodeSpec, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev
TraceInit == t \in 1..Len(Traces) /\ l = 1
Part(e) == IF e.zt = 0 THEN e.u ELSE IF e.enc = Utf32 THEN UpToZero32(e.u, 1) ELSE UpToZero(e.u, 1)
\* A text that ends inside a unit is truncated unless something else is wrong before.
Trail(e, st) == IF e.trail > 0 /\ Success \in st THEN {Truncated} ELSE st
Ok(e) ==
  CASE e.op = "text" -> LET d == Decode(e.enc, Part(e), 1) IN
         e.rc = 0 /\ e.c = d.c /\ e.x = d.x /\ e.bad = d.bad /\ e.ucs = (IF d.c = <<>> THEN 0 ELSE 1) /\ e.more = 0
    [] e.op = "ids" -> e.rc = 0 /\ e.c = e.g /\ e.x = [i \in 1..Len(e.g) |-> i - 1] /\ e.bad = 0 /\ e.ucs = 0 /\ e.more = 0
    [] e.op = "val" -> LET v == Validate(e.enc, e.u, 1, 0, 0, 0) IN
         e.rc \in Trail(e, v.st) /\ e.n = <<v.n8, v.n16, v.n32>>
    [] e.op = "conv" -> (IF e.denc = Latin1 /\ e.enc # Latin1
         THEN e.rc = 4 /\ e.si = 0 /\ e.out = <<>>
         ELSE LET v == Convert(e.denc, e.cap, e.enc, e.u, 1, <<>>) IN
              /\ e.rc \in Trail(e, v.st) \/ (e.trail > 0 /\ NoSpace = e.rc /\ Success \in v.st /\ Len(v.out) = e.cap)
              /\ e.si = v.si /\ e.out = v.out)
         /\ e.guard = 1
    [] OTHER -> FALSE
TraceNext ==
  \/ /\ l <= Len(Ev) /\ (Ok(Ev[l]) = TRUE) /\ l' = l + 1 /\ UNCHANGED t
  \/ l > Len(Ev) /\ UNCHANGED vars
=============================================================================
