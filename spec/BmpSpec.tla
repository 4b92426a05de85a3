------------------------------ MODULE BmpSpec -------------------------------
(* Device independent bitmaps: OS/2 1.x (12), Windows 3 (40), V2 (52), V3 (56), V4 (108) and V5 (124) headers. *)
EXTENDS PngSpec
LE16(d, k) == d[k + 1] + 256 * d[k + 2]
LE24(d, k) == d[k + 1] + 256 * d[k + 2] + 65536 * d[k + 3]
\* 32-bit words that fit into 31 bits, negative ones included.
LE32(d, k) == LE24(d, k) + 16777216 * (IF d[k + 4] > 127 THEN d[k + 4] - 256 ELSE d[k + 4])
\* Bits of a little-endian word of bytes, least significant first, as a sequence.
WordBits(d, k, n) == SubSeq([i \in 1..8 * n |-> (d[k + 1 + (i - 1) \div 8] \div P2[(i - 1) % 8]) % 2], 1, 8 * n)
MaskOf(d, k) == LET b == WordBits(d, k, 4)
                    on == {i \in 1..32 : b[i] = 1} IN
                IF on = {} THEN [lo |-> 0, n |-> 0] ELSE [lo |-> CHOOSE i \in on : \A j \in on : i <= j, n |-> Cardinality(on)]
\* A channel of n bits (msb last in v): the 8 most significant bits; shorter channels are repeated.
Chan(bits, m) ==
  IF m.n = 0 THEN 0
  ELSE LET top(i) == bits[m.lo + m.n - 1 - ((i - 1) % m.n)] IN      \* i-th bit from the top, repeated
       128 * top(1) + 64 * top(2) + 32 * top(3) + 16 * top(4) + 8 * top(5) + 4 * top(6) + 2 * top(7) + top(8)
BmpHeader(d) ==
  LET n == LE32(d, 14)
      os == n = 12
      w == IF os THEN LE16(d, 18) ELSE LE32(d, 18)
      h == IF os THEN LE16(d, 20) ELSE LE32(d, 22)
      depth == IF os THEN LE16(d, 24) ELSE LE16(d, 28)
      comp == IF os THEN 0 ELSE LE32(d, 30)
      after == n >= 52 \/ comp = 3 \/ comp = 6
      mask(k) == IF after /\ depth > 8 /\ (k < 3 \/ n >= 56 \/ comp = 6) THEN MaskOf(d, 54 + 4 * k) ELSE [lo |-> 0, n |-> 0]
      none == mask(0).n + mask(1).n + mask(2).n = 0
      std == IF depth = 16 THEN <<[lo |-> 11, n |-> 5], [lo |-> 6, n |-> 5], [lo |-> 1, n |-> 5], [lo |-> 0, n |-> 0]>>
             ELSE <<[lo |-> 17, n |-> 8], [lo |-> 9, n |-> 8], [lo |-> 1, n |-> 8], [lo |-> 0, n |-> 0]>> IN
  [n |-> n, w |-> w, h |-> IF h < 0 THEN -h ELSE h, down |-> h < 0, depth |-> depth, comp |-> comp, off |-> LE32(d, 10),
   masks |-> IF none THEN std ELSE <<mask(0), mask(1), mask(2), mask(3)>>,
   entry |-> IF os THEN 3 ELSE 4]
Colour(d, i, v) == LET k == 14 + i.n + v * i.entry IN
  IF k + i.entry <= i.off THEN <<B(d, k), B(d, k + 1), B(d, k + 2), 255>> ELSE <<0, 0, 0, 255>>
Direct(d, i, k) == LET b == WordBits(d, k, i.depth \div 8)
                       m == i.masks IN
                   <<Chan(b, m[3]), Chan(b, m[2]), Chan(b, m[1]), IF m[4].n = 0 THEN 255 ELSE Chan(b, m[4])>>
RowAt(d, i, k) ==
  SubSeq([x \in 1..i.w |-> IF i.depth > 8 THEN Direct(d, i, k + (x - 1) * (i.depth \div 8))
                           ELSE Colour(d, i, Small(Cut(d, k, RowBytes(i.w, i.depth)), x - 1, i.depth))], 1, i.w)
\* ---- run lengths: rows from the bottom; what is skipped is black ----
Dark == <<0, 0, 0, 255>>
Put(s, vs) == LET room == s.w - s.x
                  t == IF Len(vs) > room THEN SubSeq(vs, 1, room) ELSE vs IN [s EXCEPT !.cur = @ \o t, !.x = @ + Len(t)]
Fill(s, x) == [s EXCEPT !.cur = @ \o Rep(Dark, x - s.x), !.x = x]
NextRow(s) == LET z == Fill(s, s.w) IN [z EXCEPT !.rows = Append(@, z.cur), !.cur = <<>>, !.x = 0]
RECURSIVE Down(_, _)
Down(s, n) == IF n = 0 THEN s ELSE Down(NextRow(s), n - 1)
RleStep(d, i, s) ==
  IF s.st # "run" THEN s
  ELSE IF s.k + 2 > Len(d) THEN [s EXCEPT !.st = "short"]
  ELSE LET a == B(d, s.k)
           b == B(d, s.k + 1)
           z == [s EXCEPT !.k = @ + 2]
           nib(k, j) == LET v == B(d, k + (j - 1) \div 2) IN IF j % 2 = 1 THEN v \div 16 ELSE v % 16
           col == [v \in 0..255 |-> Colour(d, i, v)] IN
       IF a > 0 THEN Put(z, SubSeq([j \in 1..a |-> col[IF i.depth = 8 THEN b ELSE IF j % 2 = 1 THEN b \div 16 ELSE b % 16]], 1, a))
       ELSE IF b > 2 THEN LET n == IF i.depth = 8 THEN ((b + 1) \div 2) * 2 ELSE ((((b + 1) \div 2) + 1) \div 2) * 2 IN
            IF z.k + n > Len(d) THEN [s EXCEPT !.st = "short"]
            ELSE [Put(z, SubSeq([j \in 1..b |-> col[IF i.depth = 8 THEN B(d, z.k + j - 1) ELSE nib(z.k, j)]], 1, b)) EXCEPT !.k = z.k + n]
       ELSE IF b = 0 THEN LET y == NextRow(z) IN IF Len(y.rows) = i.h THEN [y EXCEPT !.st = "ok"] ELSE y
       ELSE IF b = 1 THEN [Down(z, i.h - Len(z.rows)) EXCEPT !.st = "ok"]
       ELSE IF z.k + 2 > Len(d) THEN [s EXCEPT !.st = "short"]
       ELSE LET dx == B(d, z.k)
                dy == B(d, z.k + 1) IN
            IF z.x + dx > i.w \/ Len(z.rows) + dy > i.h THEN [s EXCEPT !.st = "bad"]
            ELSE LET q == Down(z, dy) IN
                 IF dy > 0 /\ Len(q.rows) = i.h THEN [q EXCEPT !.st = "ok"]
                 ELSE [Fill(q, z.x + dx) EXCEPT !.k = z.k + 2]
Rle(d, i) == FoldLeft(LAMBDA s, n : RleStep(d, i, s), [st |-> "run", k |-> i.off, rows |-> <<>>, cur |-> <<>>, x |-> 0, w |-> i.w], Iota((Len(d) - i.off) \div 2 + 1))
Bmp(d) ==
  LET i == BmpHeader(d)
      coded == (i.comp = 1 /\ i.depth = 8) \/ (i.comp = 2 /\ i.depth = 4)
      n == ((i.w * i.depth + 31) \div 32) * 4
      z == IF coded THEN Rle(d, i) ELSE [st |-> IF i.off + n * i.h <= Len(d) THEN "ok" ELSE "short", rows |-> <<>>]
      rows == IF coded THEN z.rows ELSE SubSeq([y \in 1..i.h |-> RowAt(d, i, i.off + n * (y - 1))], 1, i.h) IN
  IF d[1] # 66 \/ d[2] # 77 \/ z.st # "ok" THEN None
  ELSE [ok |-> TRUE, w |-> i.w, h |-> i.h, f |-> IF i.depth > 8 /\ i.masks[4].n > 0 THEN 1 ELSE 2, px |-> Flat(IF i.down THEN rows ELSE Reverse(rows))]
=============================================================================
