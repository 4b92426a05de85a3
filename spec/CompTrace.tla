----------------------------- MODULE CompTrace -----------------------------
(* C15: every recorded composition follows its operator's formula. *)
EXTENDS CompSpec, Sequences, TLC, Json, IOUtils
ASSUME Algebra
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev
Init == t \in 1..Len(Traces) /\ l = 1
NotImplemented == 65543
(* Operators which no build may lack. *)
Basic == {0, 1, 6, 11}
Pre(p) == SubSeq(p, 1, 4)
Src(p) == SubSeq(p, 5, 8)
Post(p) == SubSeq(p, 9, 12)
Ok(e) ==
  /\ e.erc = 0
  /\ IF e.rc = NotImplemented THEN /\ e.op \notin Basic
                                   /\ \A i \in 1..Len(e.px) : Pre(e.px[i]) = Post(e.px[i])
     ELSE /\ e.rc = 0
          /\ \A i \in 1..Len(e.px) : LET p == e.px[i] IN
               IF p[13] = 0 THEN Pre(p) = Post(p)
               ELSE PixelOk(e.op, e.df, Pre(p), Src(p), p[13], Post(p), IF e.rough = 1 THEN 2 ELSE 1)
TraceNext ==
  \/ /\ l <= Len(Ev) /\ (Ok(Ev[l]) = TRUE) /\ l' = l + 1 /\ UNCHANGED t
  \/ l > Len(Ev) /\ UNCHANGED vars
=============================================================================
