------------------------------ MODULE FileTrace ------------------------------
(* File objects (C25). A file is a byte sequence (or does not exist), an open file object is a position in one file.
   The operating system may transfer fewer bytes than asked for at a time and may fail (e.inj: it failed in this call). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, file, exists, mt, h, arr
vars == <<t, l, file, exists, mt, h, arr>>
Ev == Traces[t].ev
e == Ev[l]
Files == 1..3
Closed == [f |-> 0, pos |-> 0, r |-> 0, w |-> 0]
Rok == 0  RInvalid == 1  RHandle == 2  RPerm == 3  RNoEntry == 4  RExists == 5  ROther == 9
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ file = [f \in Files |-> <<>>] /\ exists = [f \in Files |-> FALSE] /\ mt = [f \in Files |-> <<>>]
             /\ h = [s \in 1..3 |-> Closed] /\ arr = <<>>
Zeros(n) == SubSeq([i \in 1..n |-> 0], 1, n)
Min2(a, b) == IF a < b THEN a ELSE b
Cut(q, n) == SubSeq(q, 1, Min2(n, Len(q)))
\* Bytes d at position p (a gap reads as zeros).
Put(q, p, d) == IF d = <<>> THEN q
                ELSE Cut(q, p) \o (IF p > Len(q) THEN Zeros(p - Len(q)) ELSE <<>>) \o d \o SubSeq(q, p + Len(d) + 1, Len(q))
Same == UNCHANGED <<file, exists, mt, h, arr>>
H == h[e.s]
Sz(f) == Len(file[f])
Open ==
  LET bad == (e.r = 0 /\ e.w = 0) \/ ((e.c = 1 \/ e.x = 1 \/ e.tr = 1) /\ e.w = 0) IN
  /\ UNCHANGED arr
  /\ IF bad THEN e.rc = RInvalid /\ Same
     ELSE IF ~exists[e.f] /\ e.c = 0 /\ e.x = 0 THEN e.rc = RNoEntry /\ Same
     ELSE IF exists[e.f] /\ e.x = 1 THEN e.rc = RExists /\ Same
     ELSE /\ e.rc = Rok
          /\ exists' = [exists EXCEPT ![e.f] = TRUE]
          /\ file' = (IF e.tr = 1 THEN [file EXCEPT ![e.f] = <<>>] ELSE file)
          /\ mt' = (IF e.tr = 1 \/ ~exists[e.f] THEN [mt EXCEPT ![e.f] = <<>>] ELSE mt)
          /\ h' = [h EXCEPT ![e.s] = [f |-> e.f, pos |-> 0, r |-> e.r, w |-> e.w]]
Seek ==
  LET base == CASE e.how = 0 -> 0 [] e.how = 1 -> H.pos [] OTHER -> Sz(H.f) IN
  IF e.how > 2 THEN e.rc = RInvalid /\ e.pos = -1 /\ Same
  ELSE IF H.f = 0 THEN e.rc = RHandle /\ e.pos = -1 /\ Same
  ELSE IF base + e.off < 0 THEN e.rc = RInvalid /\ e.pos = -1 /\ Same
  ELSE e.rc = Rok /\ e.pos = base + e.off /\ h' = [h EXCEPT ![e.s].pos = base + e.off] /\ UNCHANGED <<file, exists, mt, arr>>
Read ==
  IF H.f = 0 THEN e.rc = RHandle /\ e.d = <<>> /\ Same
  ELSE IF H.r = 0 THEN e.rc = (IF e.inj = 1 THEN ROther ELSE RPerm) /\ e.d = <<>> /\ Same
  ELSE LET all == SubSeq(file[H.f], H.pos + 1, Min2(H.pos + e.n, Sz(H.f))) IN
       /\ IF e.inj = 0 THEN e.rc = Rok /\ e.d = all ELSE e.rc = ROther /\ e.d = Cut(all, Len(e.d))
       /\ e.over = 0
       /\ h' = [h EXCEPT ![e.s].pos = H.pos + Len(e.d)] /\ UNCHANGED <<file, exists, mt, arr>>
Write ==
  IF H.f = 0 THEN e.rc = RHandle /\ e.n = 0 /\ Same
  ELSE IF H.w = 0 THEN e.rc = (IF e.inj = 1 THEN ROther ELSE RPerm) /\ e.n = 0 /\ Same
  ELSE /\ IF e.inj = 0 THEN e.rc = Rok /\ e.n = Len(e.d) ELSE e.rc = ROther /\ e.n <= Len(e.d)
       /\ file' = [file EXCEPT ![H.f] = Put(@, H.pos, Cut(e.d, e.n))]
       /\ mt' = [mt EXCEPT ![H.f] = IF e.n > 0 THEN <<>> ELSE @]
       /\ h' = [h EXCEPT ![e.s].pos = H.pos + e.n] /\ UNCHANGED <<exists, arr>>
Trunc ==
  IF H.f = 0 THEN e.rc = RHandle /\ Same
  ELSE IF e.n < 0 THEN e.rc = RInvalid /\ Same
  ELSE IF H.w = 0 THEN e.rc = RPerm /\ Same
  ELSE /\ e.rc = Rok
       \* "maximum size": a shorter file may also grow to it (e.sz is the size the operating system reports afterwards)
       /\ e.sz = e.n \/ e.sz = Min2(e.n, Sz(H.f))
       /\ file' = [file EXCEPT ![H.f] = IF e.sz > Sz(H.f) THEN @ \o Zeros(e.sz - Sz(H.f)) ELSE Cut(@, e.sz)]
       /\ mt' = [mt EXCEPT ![H.f] = <<>>] /\ UNCHANGED <<exists, h, arr>>
InfoOf(f) == e.v = Sz(f) /\ e.reg = 1 /\ e.valid = 1 /\ e.perm = 1 /\ (mt[f] # <<>> => e.mt = mt[f])
NoInfo == e.v = 0 /\ e.reg = 0 /\ e.valid = 0
Do ==
  CASE e.op = "open"  -> Open
    [] e.op = "close" -> e.rc = Rok /\ h' = [h EXCEPT ![e.s] = Closed] /\ UNCHANGED <<file, exists, mt, arr>>
    [] e.op = "seek"  -> Seek
    [] e.op = "read"  -> Read
    [] e.op = "write" -> Write
    [] e.op = "trunc" -> Trunc
    [] e.op = "size"  -> (IF H.f = 0 THEN e.rc = RHandle /\ e.v = 0 ELSE e.rc = Rok /\ e.v = Sz(H.f)) /\ Same
    [] e.op = "info"  -> (IF H.f = 0 THEN e.rc = RHandle /\ NoInfo ELSE e.rc = Rok /\ InfoOf(H.f)) /\ Same
    [] e.op = "finfo" -> (IF ~exists[e.f] THEN e.rc = RNoEntry /\ NoInfo ELSE e.rc = Rok /\ InfoOf(e.f)) /\ Same
    [] e.op = "isopen" -> e.v = [s \in 1..3 |-> IF h[s].f = 0 THEN 0 ELSE 1] /\ e.fds = Cardinality({s \in 1..3 : h[s].f # 0}) /\ Same
    [] e.op = "move"  -> h' = [h EXCEPT ![e.s] = h[e.b], ![e.b] = Closed] /\ UNCHANGED <<file, exists, mt, arr>>
    [] e.op = "swap"  -> h' = [h EXCEPT ![e.s] = h[e.b], ![e.b] = h[e.s]] /\ UNCHANGED <<file, exists, mt, arr>>
    [] e.op = "rdfile" -> LET all == IF exists[e.f] THEN file[e.f] ELSE <<>>
                              want == IF e.max = 0 THEN all ELSE Cut(all, e.max) IN
                          /\ IF ~exists[e.f] THEN e.rc = RNoEntry /\ e.d = <<>>
                             ELSE IF e.inj = 0 THEN e.rc = Rok /\ e.d = want
                             ELSE e.rc = ROther /\ e.d = Cut(want, Len(e.d))
                          /\ arr' = e.d /\ UNCHANGED <<file, exists, mt, h>>
    \* What was read belongs to the array, changing it never reaches the file (nor another array).
    [] e.op = "mut"   -> e.d = arr \o e.add /\ e.was = arr /\ arr' = e.d /\ UNCHANGED <<file, exists, mt, h>>
    [] e.op = "wrfile" -> /\ IF e.inj = 0 THEN e.rc = Rok /\ e.n = Len(e.d) ELSE e.rc = ROther /\ e.n <= Len(e.d)
                          /\ exists' = [exists EXCEPT ![e.f] = TRUE]
                          /\ file' = [file EXCEPT ![e.f] = Cut(e.d, e.n)]
                          /\ mt' = [mt EXCEPT ![e.f] = <<>>] /\ UNCHANGED <<h, arr>>
    [] e.op = "utime" -> (IF exists[e.f] THEN mt' = [mt EXCEPT ![e.f] = <<e.sec, e.us>>] ELSE mt' = mt) /\ UNCHANGED <<file, exists, h, arr>>
    [] e.op = "ext"   -> e.d = (IF exists[e.f] THEN file[e.f] ELSE <<>>) /\ Same            \* content as another program sees it
    [] e.op = "big"   -> e.rc = Rok /\ e.size = (IF e.max = 0 THEN e.n ELSE Min2(e.n, e.max)) /\ e.same = 1 /\ e.maps = 0 /\ Same
    [] OTHER -> FALSE
TraceNext ==
  \/ /\ l <= Len(Ev) /\ Do /\ l' = l + 1 /\ UNCHANGED t
  \/ l > Len(Ev) /\ UNCHANGED vars
=============================================================================
