---------------------------- MODULE DeflateTrace ----------------------------
(* C21. "inf": a stream is decoded several times, with different chunk and buffer sizes: e.rs holds the distinct results
   <<code, bytes>>. "def": data is compressed. "sum": checksums, continued over parts. *)
EXTENDS Deflate, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
vars == <<t, l>>
Ev == Traces[t].ev
TraceInit == t \in 1..Len(Traces) /\ l = 1
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* codes: 0 success, 1 more input is needed, 2 invalid data
Inf(e) ==
  LET s == IF e.z = 1 THEN Unzlib(e.d) ELSE Inflate(e.d, 0) IN
  \A i \in 1..Len(e.rs) : LET r == e.rs[i] IN
    TRUE = (\/ r[1] = 0 /\ s.st = "ok" /\ r[2] = s.out
            \/ r[1] = 1 /\ s.st = "short" /\ Prefix(r[2], s.out)
            \/ r[1] = 2 /\ (s.st = "bad" \/ s.odd)
            \* codes a stream of which only a prefix exists need not be examined yet, and the other way round
            \/ r[1] = 1 /\ s.st = "bad" /\ e.cut = 1
            \/ r[1] = 2 /\ s.st = "short" /\ e.cut = 1 /\ e.mut = 1)
\* A stream made to conform is accepted.
Good(e) == e.mut = 0 /\ e.cut = 0 => LET s == IF e.z = 1 THEN Unzlib(e.d) ELSE Inflate(e.d, 0) IN
             s.st = "ok" /\ ~s.odd /\ s.out = e.want /\ \A i \in 1..Len(e.rs) : e.rs[i][1] = 0
Def(e) == LET s == IF e.z = 1 THEN Unzlib(e.d) ELSE Inflate(e.d, 0) IN
  /\ e.rc = 0 /\ s.st = "ok" /\ ~s.odd /\ s.out = e.want
  /\ IF e.z = 1 THEN ZlibTail(e.d, s) = Adler(e.want) /\ Len(e.d) = (s.p + 7) \div 8 + 4 ELSE Len(e.d) = (s.p + 7) \div 8
  /\ e.back = 1 /\ e.fits = 1
RECURSIVE Sums(_, _, _, _)
Sums(d, cuts, i, a) == IF i > Len(cuts) THEN <<>> ELSE LET part == SubSeq(d, IF i = 1 THEN 1 ELSE cuts[i - 1] + 1, cuts[i]) IN
                       LET b == <<AdlerFrom(a[1], part), CrcFrom(a[2], part)>> IN <<b>> \o Sums(d, cuts, i + 1, b)
Sum(e) == e.ad = Adler(e.d) /\ e.crc = Crc(e.d) /\ e.parts = Sums(e.d, e.cuts, 1, << <<0, 1>>, <<65535, 65535>> >>)
Ok(e) ==
  CASE e.op = "inf" -> Inf(e) /\ Good(e)
    [] e.op = "def" -> Def(e)
    [] e.op = "big" -> e.rc = 0 /\ e.same = 1 /\ e.fits = 1
    [] e.op = "sum" -> Sum(e)
    [] OTHER -> FALSE
TraceNext ==
  \/ /\ l <= Len(Ev) /\ (Ok(Ev[l]) = TRUE) /\ l' = l + 1 /\ UNCHANGED t
  \/ l > Len(Ev) /\ UNCHANGED vars
=============================================================================
