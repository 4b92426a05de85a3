--------------------------- MODULE PixconvTrace ---------------------------
(* C23. The state of a converter is the pair of formats it converts between (or none). *)
EXTENDS PixelFormat, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, cv
vars == <<t, l, cv>>
Ev == Traces[t].ev
None == [st |-> "none"]
Init == t \in 1..Len(Traces) /\ l = 1 /\ cv = <<None, None>>
Invalid == 65537
NotInitialized == 65542
NotImplemented == 65543
CreateOk(e) ==
  LET d == IF IsIndexed(e.df) THEN [e.df EXCEPT !.pal = IF e.dp = 1 THEN <<0>> ELSE << >>] ELSE e.df IN
  IF ~Valid(d) \/ ~Valid(e.sf) THEN e.rc = Invalid
  ELSE IF Supported(d, e.sf) /\ (e.cf \div 4) % 2 = 0 THEN e.rc = 0
  ELSE e.rc \in {0, Invalid, NotImplemented}
Zeros(n) == [i \in 1..n |-> 0]
ConvOk(e, c) ==
  CASE c.st = "none" -> e.rc = NotInitialized /\ e.guard
    [] c.st = "unknown" -> TRUE
    [] OTHER ->
      LET n == c.d.depth \div 8 IN
      /\ e.rc = 0 /\ e.guard
      /\ \A y \in 1..e.h :
           /\ \A x \in 0..(e.w - 1) : ConvertedPixel(c.d, c.s, e.dst[y], e.src[y], x)
           /\ \A i \in (n * e.w + 1)..Len(e.dst[y]) : e.dst[y][i] = 0
Ok(e) ==
  /\ e.bad = 0
  /\ CASE e.op = "reset" -> e.rc = 0 [] e.op = "assign" -> e.rc = 0 [] e.op = "create" -> CreateOk(e) [] e.op = "conv" -> ConvOk(e, cv[e.k]) [] OTHER -> e.leak = 0
After(e) ==
  CASE e.op = "reset" -> [cv EXCEPT ![e.k] = None]
    [] e.op = "assign" -> [cv EXCEPT ![e.k] = cv[e.o]]
    [] e.op = "create" -> IF e.rc # 0 THEN cv ELSE [cv EXCEPT ![e.k] = IF Supported(e.df, e.sf) THEN [st |-> "on", d |-> e.df, s |-> e.sf] ELSE [st |-> "unknown"]]
    [] OTHER -> cv
TraceNext ==
  \/ /\ l <= Len(Ev) /\ (Ok(Ev[l]) = TRUE) /\ l' = l + 1 /\ cv' = After(Ev[l]) /\ UNCHANGED t
  \/ l > Len(Ev) /\ UNCHANGED vars
=============================================================================
