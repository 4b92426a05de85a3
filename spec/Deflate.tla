------------------------------ MODULE Deflate ------------------------------
(* RFC 1951 (deflate), RFC 1950 (zlib wrapper), Adler-32 and CRC-32 as state machines over byte sequences.
   A decoder state is advanced by Step until its status is no longer "run". *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
P2 == [i \in 0..24 |-> 2^i]
NBits(d) == 8 * Len(d)
Byte(d, k) == IF k < Len(d) THEN d[k + 1] ELSE 0
\* The n <= 16 bits at bit position p, least significant first.
Bits(d, p, n) == LET k == p \div 8 IN ((Byte(d, k) + 256 * Byte(d, k + 1) + 65536 * Byte(d, k + 2)) \div P2[p % 8]) % P2[n]
Iota(n) == SubSeq([i \in 1..n |-> i], 1, n)
\* ---- Huffman codes: code lengths -> counts per length and symbols ordered by (length, symbol) ----
Huff(lens) ==
  LET n == Len(lens)
      cnt == SubSeq([L \in 1..15 |-> Len(SelectSeq(lens, LAMBDA v : v = L))], 1, 15)
      syms == FoldLeft(LAMBDA acc, L : IF cnt[L] = 0 THEN acc ELSE acc \o SelectSeq(Iota(n), LAMBDA i : lens[i] = L), <<>>, Iota(15))
      left == FoldLeft(LAMBDA x, L : IF x < 0 THEN x ELSE 2 * x - cnt[L], 1, Iota(15)) IN
  [cnt |-> cnt, syms |-> syms, left |-> left]
\* <<symbol, new position>>; symbol -1: not a code, -2: out of input
RECURSIVE Dec(_, _, _, _, _, _, _)
Dec(h, d, p, len, code, first, index) ==
  IF len > 15 THEN <<-1, p>>
  ELSE IF p >= NBits(d) THEN <<-2, p>>
  ELSE LET c == code + Bits(d, p, 1)
           k == h.cnt[len] IN
       IF c - k < first THEN <<h.syms[index + (c - first) + 1] - 1, p + 1>>
       ELSE Dec(h, d, p + 1, len + 1, 2 * c, 2 * (first + k), index + k)
Sym(h, d, p) == Dec(h, d, p, 1, 0, 0, 0)
LenBase == <<3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258>>
LenExtra == <<0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0>>
DistBase == <<1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577>>
DistExtra == <<0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13>>
Order == <<16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15>>
FixedLL == Huff(SubSeq([i \in 1..288 |-> IF i <= 144 THEN 8 ELSE IF i <= 256 THEN 9 ELSE IF i <= 280 THEN 7 ELSE 8], 1, 288))
FixedD == Huff(SubSeq([i \in 1..30 |-> 5], 1, 30))
Rep(v, n) == SubSeq([i \in 1..n |-> v], 1, n)
\* n bytes of out from distance k back, the copied bytes included
CopyBack(out, k, n) == LET m == Len(out) IN
  IF k >= n THEN out \o SubSeq(out, m - k + 1, m - k + n) ELSE out \o SubSeq([i \in 1..n |-> out[m - k + 1 + ((i - 1) % k)]], 1, n)
Start(p) == [m |-> "hdr", p |-> p, out |-> <<>>, fin |-> FALSE, ll |-> 0, dd |-> 0, st |-> "run", odd |-> FALSE]
Bad(s) == [s EXCEPT !.st = "bad"]
Short(s) == [s EXCEPT !.st = "short"]
EndBlock(s) == IF s.fin THEN [s EXCEPT !.st = "ok"] ELSE [s EXCEPT !.m = "hdr"]
\* ---- dynamic block header ----
PreLens(d, p, n) == SubSeq([i \in 1..19 |-> LET at == CHOOSE k \in 1..19 : Order[k] = i - 1 IN IF at <= n THEN Bits(d, p + 3 * (at - 1), 3) ELSE 0], 1, 19)
LensStep(h, d, total, a) ==
  IF a.st # "run" \/ Len(a.lens) >= total THEN a
  ELSE LET y == Sym(h, d, a.p) IN
       IF y[1] = -2 THEN [a EXCEPT !.st = "short"]
       ELSE IF y[1] = -1 THEN [a EXCEPT !.st = "bad"]
       ELSE IF y[1] < 16 THEN [a EXCEPT !.lens = Append(@, y[1]), !.p = y[2]]
       ELSE LET x == IF y[1] = 16 THEN 2 ELSE IF y[1] = 17 THEN 3 ELSE 7
                b == IF y[1] = 18 THEN 11 ELSE 3 IN
            IF y[2] + x > NBits(d) THEN [a EXCEPT !.st = "short"]
            ELSE IF y[1] = 16 /\ a.lens = <<>> THEN [a EXCEPT !.st = "bad"]
            ELSE LET n == b + Bits(d, y[2], x)
                     v == IF y[1] = 16 THEN a.lens[Len(a.lens)] ELSE 0 IN
                 IF Len(a.lens) + n > total THEN [a EXCEPT !.st = "bad"]
                 ELSE [a EXCEPT !.lens = @ \o Rep(v, n), !.p = y[2] + x]
Dynamic(d, s) ==
  IF s.p + 14 > NBits(d) THEN Short(s)
  ELSE LET nl == 257 + Bits(d, s.p, 5)
           nd == 1 + Bits(d, s.p + 5, 5)
           nc == 4 + Bits(d, s.p + 10, 4)
           p1 == s.p + 14 + 3 * nc IN
       IF p1 > NBits(d) THEN Short(s)
       ELSE LET hc == Huff(PreLens(d, s.p + 14, nc)) IN
         IF hc.left # 0 THEN Bad(s)
         ELSE LET a == FoldLeft(LAMBDA x, i : LensStep(hc, d, nl + nd, x), [lens |-> <<>>, p |-> p1, st |-> "run"], Iota(nl + nd)) IN
           IF a.st # "run" THEN [s EXCEPT !.st = a.st]
           ELSE LET l1 == SubSeq(a.lens, 1, nl)
                    l2 == SubSeq(a.lens, nl + 1, nl + nd)
                    hl == Huff(l1)
                    hd == Huff(l2) IN
                \* Incomplete: only a single code of one bit, or no distance codes at all.
                IF \/ hl.left < 0 \/ hd.left < 0
                   \/ hl.left > 0 /\ ~(Len(hl.syms) = 1 /\ hl.cnt[1] = 1)
                   \/ hd.left > 0 /\ Len(hd.syms) > 0 /\ ~(Len(hd.syms) = 1 /\ hd.cnt[1] = 1) THEN Bad(s)
                ELSE [s EXCEPT !.m = "sym", !.p = a.p, !.ll = hl, !.dd = hd, !.odd = @ \/ nl > 286 \/ nd > 30 \/ l1[257] = 0]
Stored(d, s) ==
  LET p == ((s.p + 7) \div 8) * 8 IN
  IF p + 32 > NBits(d) THEN Short(s)
  ELSE LET n == Bits(d, p, 16)
           k == p \div 8 + 4 IN
       IF n + Bits(d, p + 16, 16) # 65535 THEN Bad(s)
       ELSE IF k + n > Len(d) THEN Short([s EXCEPT !.out = @ \o SubSeq(d, k + 1, Len(d))])
       ELSE EndBlock([s EXCEPT !.out = @ \o SubSeq(d, k + 1, k + n), !.p = 8 * (k + n)])
Header(d, s) ==
  IF s.p + 3 > NBits(d) THEN Short(s)
  ELSE LET z == [s EXCEPT !.p = @ + 3, !.fin = Bits(d, s.p, 1) = 1]
           ty == Bits(d, s.p + 1, 2) IN
       CASE ty = 0 -> Stored(d, z)
         [] ty = 1 -> [z EXCEPT !.m = "sym", !.ll = FixedLL, !.dd = FixedD]
         [] ty = 2 -> Dynamic(d, z)
         [] OTHER -> Bad(s)
Symbol(d, s) ==
  LET y == Sym(s.ll, d, s.p) IN
  IF y[1] = -2 THEN Short(s)
  ELSE IF y[1] = -1 \/ y[1] > 285 THEN Bad(s)
  ELSE IF y[1] < 256 THEN [s EXCEPT !.out = Append(@, y[1]), !.p = y[2]]
  ELSE IF y[1] = 256 THEN EndBlock([s EXCEPT !.p = y[2]])
  ELSE LET i == y[1] - 256
           n == LenBase[i] + Bits(d, y[2], LenExtra[i])
           q == y[2] + LenExtra[i] IN
       IF q > NBits(d) THEN Short(s)
       ELSE LET z == Sym(s.dd, d, q) IN
            IF z[1] = -2 THEN Short(s)
            ELSE IF z[1] = -1 \/ z[1] > 29 THEN Bad(s)
            ELSE LET j == z[1] + 1
                     k == DistBase[j] + Bits(d, z[2], DistExtra[j])
                     r == z[2] + DistExtra[j] IN
                 IF r > NBits(d) THEN Short(s)
                 ELSE IF k > Len(s.out) THEN Bad(s)
                 ELSE [s EXCEPT !.out = CopyBack(@, k, n), !.p = r]
Step(d, s) == IF s.st # "run" THEN s ELSE IF s.m = "hdr" THEN Header(d, s) ELSE Symbol(d, s)
\* Every step consumes at least a bit.
Inflate(d, p) == FoldLeft(LAMBDA s, i : Step(d, s), Start(p), Iota(NBits(d) + 1))
\* ---- checksums: <<high, low>> halves of 32-bit words ----
AdlerStep(a, b) == LET s == (a[2] + b) % 65521 IN <<(a[1] + s) % 65521, s>>
AdlerFrom(a, d) == FoldLeft(AdlerStep, a, d)
Adler(d) == AdlerFrom(<<0, 1>>, d)
CrcShift(c) == IF c[2] % 2 = 1 THEN <<(c[1] \div 2) ^^ 60856, ((c[2] \div 2) + 32768 * (c[1] % 2)) ^^ 33568>>   \* 0xEDB88320
               ELSE <<c[1] \div 2, (c[2] \div 2) + 32768 * (c[1] % 2)>>
CrcEntry(i) == CrcShift(CrcShift(CrcShift(CrcShift(CrcShift(CrcShift(CrcShift(CrcShift(<<0, i>>))))))))
CrcTable == SubSeq([i \in 1..256 |-> CrcEntry(i - 1)], 1, 256)
CrcStep(c, b) == LET e == CrcTable[((c[2] % 256) ^^ b) + 1] IN
                 <<(c[1] \div 256) ^^ e[1], ((c[2] \div 256) + 256 * (c[1] % 256)) ^^ e[2]>>
CrcFrom(c, d) == FoldLeft(CrcStep, c, d)
Crc(d) == LET c == CrcFrom(<<65535, 65535>>, d) IN <<65535 - c[1], 65535 - c[2]>>
\* ---- zlib stream ----
ZlibHead(d) == IF Len(d) < 2 THEN "short"
               ELSE IF (d[1] * 256 + d[2]) % 31 # 0 \/ d[1] % 16 # 8 \/ (d[2] \div 32) % 2 = 1 THEN "bad" ELSE "ok"
Unzlib(d) == LET h == ZlibHead(d) IN IF h # "ok" THEN [Start(0) EXCEPT !.st = h] ELSE Inflate(d, 16)
\* The Adler-32 word that follows the deflate data (<<>> if it is not there).
ZlibTail(d, s) == LET k == (s.p + 7) \div 8 IN
  IF k + 4 > Len(d) THEN <<>> ELSE <<256 * d[k + 1] + d[k + 2], 256 * d[k + 3] + d[k + 4]>>
=============================================================================
