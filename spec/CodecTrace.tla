----------------------------- MODULE CodecTrace -----------------------------
(* C19. "dec": a conforming file decoded in several ways (e.rs: the distinct results <<code, w, h, format, pixels>>).
   "anim": the frames of an animated file, read one after another. "enc": an image written to a file, read back.
   C20. "mut": a damaged file and the history of a decoder object fed with it. *)
EXTENDS QoiSpec, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev
TraceInit == t \in 1..Len(Traces) /\ l = 1
Read(e) == CASE e.fmt = "png" -> Png(e.d) [] e.fmt = "bmp" -> Bmp(e.d) [] OTHER -> Qoi(e.d)
Decoded(e, z) == z.ok /\ e.rs = << <<0, z.w, z.h, z.f, z.px>> >>
DecOk(e) == LET z == Read(e) IN Decoded(e, z) /\ e.w = z.w /\ e.h = z.h /\ e.fc = 1
AnimOk(e) == LET z == Apng(e.d) IN
  z.ok /\ e.rc = 0 /\ e.nf = Len(z.all) /\ e.fc = e.nf /\ e.w = z.w /\ e.h = z.h
  /\ \A k \in 1..Len(e.fr) : (z.f = 1 => e.fr[k] = z.all[((k - 1) % e.nf) + 1])
                             /\ (z.f = 2 => LET want == z.all[((k - 1) % e.nf) + 1] IN \A i \in 1..Len(want) : i % 4 = 0 \/ want[i] = e.fr[k][i])
\* What an image becomes when it is written and read again.
Grey(e, px) == [i \in 1..4 * Len(px) |-> IF i % 4 = 0 /\ e.fmt # "qoi" THEN 255 ELSE px[(i + 3) \div 4]]
Want(e) == IF e.f = 3 THEN SubSeq(Grey(e, e.px), 1, 4 * Len(e.px)) ELSE e.px
EncOk(e) == LET z == Read(e) IN
  /\ e.rc = 0 /\ z.ok /\ z.w = e.w /\ z.h = e.h /\ z.px = Want(e)
  /\ e.f # 3 => z.f = e.f
  /\ Decoded(e, z)
\* ---- decoder objects ----
DStep(e, s, x) ==
  IF ~s.ok THEN s
  ELSE CASE x.o = "restart" -> [ok |-> x.rc = 0, st |-> "new", err |-> 0]
    [] x.o = "info" ->
       IF s.st = "err" THEN [s EXCEPT !.ok = x.rc = s.err]
       ELSE IF e.ri # 0 THEN [ok |-> x.rc = e.ri, st |-> "err", err |-> e.ri]
       ELSE [s EXCEPT !.ok = x.rc = 0 /\ x.same = 1]
    [] OTHER ->
       IF x.old # 1 \/ x.kept # 1 THEN [s EXCEPT !.ok = FALSE]
       ELSE IF s.st = "err" THEN [s EXCEPT !.ok = x.rc = s.err]
       ELSE IF e.multi = 1 /\ s.st = "done" THEN (IF x.rc = 0 THEN s ELSE [s EXCEPT !.st = "err", !.err = x.rc])
       ELSE IF s.st = "done" THEN [s EXCEPT !.ok = x.rc = e.nomore]
       ELSE IF e.rc # 0 THEN [ok |-> x.rc = e.rc, st |-> "err", err |-> e.rc]
       ELSE [ok |-> x.rc = 0 /\ x.hash = e.hash, st |-> "done", err |-> 0]
MutOk(e) ==
  /\ (e.ri # 0 => e.rc = e.ri)
  /\ (e.ri = 0 => e.score > 0)
  /\ (e.score = 0 => e.found # 1)
  /\ (e.ri = 0 => e.found = 1)
  /\ e.wok = 1
  /\ FoldLeft(LAMBDA s, x : DStep(e, s, x), [ok |-> TRUE, st |-> "new", err |-> 0], e.st).ok
Ok(e) == CASE e.op = "dec" -> DecOk(e) [] e.op = "anim" -> AnimOk(e) [] e.op = "enc" -> EncOk(e) [] e.op = "mut" -> MutOk(e) [] OTHER -> FALSE
TraceNext ==
  \/ /\ l <= Len(Ev) /\ (Ok(Ev[l]) = TRUE) /\ l' = l + 1 /\ UNCHANGED t
  \/ l > Len(Ev) /\ UNCHANGED vars
=============================================================================
