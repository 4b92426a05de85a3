---------------------------------- MODULE PropTrace ----------------------------------
(* Properties of objects (property C09): two PNG encoders (1 and 4) have "compression", a context (2) has the read-only     *)
(* "thread_count" and "accumulated_error_flags", a string (3) has none.  Values are written and read through every typed    *)
(* accessor, and are converted as variants are.                                                                              *)
EXTENDS VarSpec, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES comp, t, l     \* comp[k]: compression of encoder k
tvars == <<comp, t, l>>
Ev == Traces[t].ev
e == Ev[l]
Encoders == {1, 4}
Has(s, n) == \/ s \in Encoders /\ n = "compression"
             \/ s = 2 /\ n \in {"thread_count", "accumulated_error_flags"}
Num(n) == <<IF n = 0 THEN 0 ELSE 1, 0, 0, n, 0>>
Twelve == Num(12)
Value(s, n) == IF s \in Encoders THEN Num(comp[s]) ELSE Zero
\* What a typed getter returns for an unsigned property.
AsKind(k, n) == IF k = "bool" THEN ToBool(Val(UintT, "num", n, <<>>))[1] ELSE n
Get == /\ UNCHANGED comp
       /\ IF Has(e.s, e.name) THEN e.rc = "ok" /\ e.out = AsKind(e.kind, Value(e.s, e.name))
          ELSE e.rc = "key" /\ (e.kind # "var" => e.out = Zero)
Set == IF ~Has(e.s, e.name) THEN e.rc = "key" /\ UNCHANGED comp
       ELSE IF e.s \notin Encoders THEN e.rc # "ok" /\ UNCHANGED comp
       ELSE LET c == ToInt(Uint64, e.v) IN
            IF c[2] # "ok" THEN e.rc # "ok" /\ UNCHANGED comp
            ELSE e.rc = "ok" /\ comp' = [comp EXCEPT ![e.s] = IF NumLess(Twelve, c[1]) THEN 12 ELSE c[1][4]]
TraceInit == comp = [k \in Encoders |-> 6] /\ t \in 1..Len(Traces) /\ l = 1
Step == (IF e.op = "get" THEN Get ELSE Set) /\ e.bad = 0 /\ e.st = <<comp'[1], comp'[4], 0, 0>>
TraceNext == \/ /\ l <= Len(Ev)
                /\ (IF e.op = "end" THEN e.live = 0 /\ e.bad = 0 /\ UNCHANGED comp ELSE Step)
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
=======================================================================================
