------------------------------ MODULE PngSpec -------------------------------
(* Portable network graphics (ISO/IEC 15948, and the APNG and CgBI variants): the meaning of a file, as byte sequences
   b, g, r, a of premultiplied pixels. Formats: 1 premultiplied, 2 opaque. *)
EXTENDS Deflate, FiniteSets
B(d, k) == d[k + 1]
BE16(d, k) == 256 * d[k + 1] + d[k + 2]
BE32(d, k) == 16777216 * d[k + 1] + 65536 * d[k + 2] + 256 * d[k + 3] + d[k + 4]
Cut(d, k, n) == SubSeq(d, k + 1, k + n)
Signature == <<137, 80, 78, 71, 13, 10, 26, 10>>
IHDR == <<73, 72, 68, 82>>   PLTE == <<80, 76, 84, 69>>   TRNS == <<116, 82, 78, 83>>   IDAT == <<73, 68, 65, 84>>   IEND == <<73, 69, 78, 68>>
CGBI == <<67, 103, 66, 73>>  ACTL == <<97, 99, 84, 76>>   FCTL == <<102, 99, 84, 76>>   FDAT == <<102, 100, 65, 84>>
RECURSIVE Chunks(_, _, _)
Chunks(d, k, acc) ==
  IF k + 12 > Len(d) \/ d[k + 1] > 0 THEN acc
  ELSE LET n == BE32(d, k) IN
       IF k + 12 + n > Len(d) THEN acc
       ELSE Chunks(d, k + 12 + n, Append(acc, [t |-> Cut(d, k + 4, 4), k |-> k + 8, n |-> n,
                                               good |-> Crc(Cut(d, k + 4, n + 4)) = <<BE16(d, k + 8 + n), BE16(d, k + 10 + n)>>, end |-> k + 12 + n]))
Of(cs, t) == SelectSeq(cs, LAMBDA c : c.t = t)
Consecutive(cs, t) == \A i \in 1..Len(cs), j \in 1..Len(cs) : i < j /\ cs[i].t = t /\ cs[j].t = t => \A k \in i..j : cs[k].t = t
\* The chunk structure of a file.
Sound(d, cs) ==
  /\ Cut(d, 0, 8) = Signature /\ Len(cs) > 2 /\ cs[Len(cs)].end = Len(d) /\ cs[Len(cs)].t = IEND /\ cs[Len(cs)].n = 0
  /\ \A i \in 1..Len(cs) : cs[i].good
  /\ LET h == Of(cs, IHDR) IN Len(h) = 1 /\ h[1].n = 13 /\ (cs[1].t = IHDR \/ (cs[1].t = CGBI /\ cs[2].t = IHDR))
  /\ Len(Of(cs, IEND)) = 1 /\ Len(Of(cs, IDAT)) > 0 /\ Consecutive(cs, IDAT)
Info(d, cs) ==
  LET h == Of(cs, IHDR)[1]
      p == Of(cs, PLTE)
      x == Of(cs, TRNS) IN
  [w |-> BE32(d, h.k), h |-> BE32(d, h.k + 4), depth |-> B(d, h.k + 8), type |-> B(d, h.k + 9), lace |-> B(d, h.k + 12), cgbi |-> cs[1].t = CGBI,
   pal |-> IF p = <<>> THEN <<>> ELSE Cut(d, p[1].k, p[1].n), trns |-> IF x = <<>> THEN <<>> ELSE Cut(d, x[1].k, x[1].n)]
Samples(t) == CASE t = 0 -> 1 [] t = 2 -> 3 [] t = 3 -> 1 [] t = 4 -> 2 [] OTHER -> 4
FormatOf(t) == IF t = 2 THEN 2 ELSE 1
\* ---- scanline filters ----
Abs(v) == IF v < 0 THEN -v ELSE v
Paeth(a, b, c) == LET p == a + b - c IN LET pa == Abs(p - a)  pb == Abs(p - b)  pc == Abs(p - c) IN
                  IF pa <= pb /\ pa <= pc THEN a ELSE IF pb <= pc THEN b ELSE c
Predict(f, a, b, c) == CASE f = 0 -> 0 [] f = 1 -> a [] f = 2 -> b [] f = 3 -> (a + b) \div 2 [] OTHER -> Paeth(a, b, c)
UnRow(f, r, up, bpp) ==
  FoldLeft(LAMBDA acc, i : Append(acc, (r[i] + Predict(f, IF i > bpp THEN acc[i - bpp] ELSE 0, up[i], IF i > bpp THEN up[i - bpp] ELSE 0)) % 256), <<>>, Iota(Len(r)))
\* The rows of one (sub)image of n bytes a row, at offset k.
Rows(raw, k, n, h, bpp) ==
  FoldLeft(LAMBDA acc, y : Append(acc, UnRow(raw[k + (y - 1) * (n + 1) + 1], Cut(raw, k + (y - 1) * (n + 1) + 1, n), IF y = 1 THEN Rep(0, n) ELSE acc[y - 1], bpp)), <<>>, Iota(h))
\* ---- interlacing: x offset, y offset, x step, y step ----
Adam7 == << <<0, 0, 8, 8>>, <<4, 0, 8, 8>>, <<0, 4, 4, 8>>, <<2, 0, 4, 4>>, <<0, 2, 2, 4>>, <<1, 0, 2, 2>>, <<0, 1, 1, 2>> >>
Whole == << <<0, 0, 1, 1>> >>
Up(a, b) == (a + b - 1) \div b
PassW(p, w) == IF w <= p[1] THEN 0 ELSE Up(w - p[1], p[3])
PassH(p, h) == IF h <= p[2] THEN 0 ELSE Up(h - p[2], p[4])
RowBytes(w, bits) == Up(w * bits, 8)
PassSize(p, w, h, bits) == IF PassW(p, w) = 0 \/ PassH(p, h) = 0 THEN 0 ELSE (RowBytes(PassW(p, w), bits) + 1) * PassH(p, h)
RawSize(ps, w, h, bits) == FoldLeft(LAMBDA s, p : s + PassSize(p, w, h, bits), 0, ps)
PassRows(raw, ps, w, h, bits) ==
  LET bpp == IF bits < 8 THEN 1 ELSE bits \div 8 IN
  FoldLeft(LAMBDA a, p : IF PassSize(p, w, h, bits) = 0 THEN [a EXCEPT !.r = Append(@, <<>>)]
                         ELSE [k |-> a.k + PassSize(p, w, h, bits), r |-> Append(a.r, Rows(raw, a.k, RowBytes(PassW(p, w), bits), PassH(p, h), bpp))],
           [k |-> 0, r |-> <<>>], ps).r
PassAt(ps, x, y) == CHOOSE i \in 1..Len(ps) : x % ps[i][3] = ps[i][1] % ps[i][3] /\ y % ps[i][4] = ps[i][2] % ps[i][4] /\ x >= ps[i][1] /\ y >= ps[i][2]
                      /\ \A j \in 1..(i - 1) : ~(x >= ps[j][1] /\ y >= ps[j][2] /\ (x - ps[j][1]) % ps[j][3] = 0 /\ (y - ps[j][2]) % ps[j][4] = 0)
Tile(ps) == SubSeq([k \in 1..64 |-> PassAt(ps, (k - 1) % 8, (k - 1) \div 8)], 1, 64)
\* ---- colours ----
Mul255(c, a) == ((c * a + 128) * 257) \div 65536
Premul(r, g, b, a) == <<Mul255(b, a), Mul255(g, a), Mul255(r, a), a>>
Small(row, x, depth) == (row[(x * depth) \div 8 + 1] \div P2[8 - depth - ((x * depth) % 8)]) % P2[depth]
Pixel(i, row, x) ==
  LET v(k) == row[x * Samples(i.type) + k] IN
  CASE i.type = 0 -> LET s == Small(row, x, i.depth)
                         g == s * (255 \div (P2[i.depth] - 1)) IN
                     IF i.trns # <<>> /\ s = BE16(i.trns, 0) THEN <<0, 0, 0, 0>> ELSE <<g, g, g, 255>>
    [] i.type = 2 -> IF i.cgbi THEN <<v(1), v(2), v(3), 255>> ELSE <<v(3), v(2), v(1), 255>>
    [] i.type = 3 -> LET s == Small(row, x, i.depth) IN
                     Premul(i.pal[3 * s + 1], i.pal[3 * s + 2], i.pal[3 * s + 3], IF s < Len(i.trns) THEN i.trns[s + 1] ELSE 255)
    [] i.type = 4 -> Premul(v(1), v(1), v(1), v(2))
    [] OTHER -> IF i.cgbi THEN <<v(1), v(2), v(3), v(4)>> ELSE Premul(v(1), v(2), v(3), v(4))
Join(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Seq0(n) == SubSeq([k \in 1..n |-> k - 1], 1, n)
\* The rows of pixels (each a sequence of pixels) of a w by h image whose filtered data are raw.
ImageRows(i, raw, w, h) ==
  LET bits == i.depth * Samples(i.type)
      ps == IF i.lace = 1 THEN Adam7 ELSE Whole
      rows == PassRows(raw, ps, w, h, bits)
      tile == Tile(ps)
      at(x, y) == LET k == tile[(y % 8) * 8 + (x % 8) + 1] IN LET p == ps[k] IN
                  Pixel(i, rows[k][(y - p[2]) \div p[4] + 1], (x - p[1]) \div p[3])
      row(y) == SubSeq([x \in 1..w |-> at(x - 1, y)], 1, w) IN
  SubSeq([y \in 1..h |-> row(y - 1)], 1, h)
RawOf(i, data, w, h) ==
  LET s == IF i.cgbi THEN Inflate(data, 0) ELSE Unzlib(data)
      n == RawSize(IF i.lace = 1 THEN Adam7 ELSE Whole, w, h, i.depth * Samples(i.type)) IN
  [ok |-> s.st = "ok" /\ ~s.odd /\ Len(s.out) = n /\ (i.cgbi \/ ZlibTail(data, s) = Adler(s.out)), out |-> s.out]
Flat(rows) == FoldLeft(LAMBDA a, r : a \o Join(r), <<>>, rows)
None == [ok |-> FALSE]
\* The still image of a file.
Png(d) ==
  LET cs == Chunks(d, 8, <<>>) IN
  IF ~Sound(d, cs) THEN None
  ELSE LET i == Info(d, cs)
           raw == RawOf(i, Join([k \in 1..Len(Of(cs, IDAT)) |-> Cut(d, Of(cs, IDAT)[k].k, Of(cs, IDAT)[k].n)]), i.w, i.h) IN
       IF ~raw.ok THEN None
       ELSE [ok |-> TRUE, w |-> i.w, h |-> i.h, f |-> FormatOf(i.type), px |-> Flat(ImageRows(i, raw.out, i.w, i.h))]
\* ---- animation: the canvas after each frame (blend operation "source" only) ----
Window(canvas, win, rows) ==
  SubSeq([y \in 1..Len(canvas) |-> IF y - 1 < win.y \/ y - 1 >= win.y + win.h THEN canvas[y]
          ELSE SubSeq([x \in 1..Len(canvas[y]) |-> IF x - 1 < win.x \/ x - 1 >= win.x + win.w THEN canvas[y][x] ELSE rows[y - win.y][x - win.x]], 1, Len(canvas[y]))], 1, Len(canvas))
Region(canvas, win) == SubSeq([y \in 1..win.h |-> SubSeq(canvas[y + win.y], win.x + 1, win.x + win.w)], 1, win.h)
Blank(win) == Rep(Rep(<<0, 0, 0, 0>>, win.w), win.h)
Ctrl(d, c) == [w |-> BE32(d, c.k + 4), h |-> BE32(d, c.k + 8), x |-> BE32(d, c.k + 12), y |-> BE32(d, c.k + 16), dispose |-> B(d, c.k + 24)]
\* The data of the frame whose control chunk is the n-th one.
FrameData(d, cs, at) ==
  LET nx == {k \in at + 1..Len(cs) : cs[k].t = FCTL \/ cs[k].t = IEND}
      upto == CHOOSE k \in nx : \A m \in nx : k <= m
      part(c) == IF c.t = IDAT THEN Cut(d, c.k, c.n) ELSE IF c.t = FDAT THEN Cut(d, c.k + 4, c.n - 4) ELSE <<>> IN
  FoldLeft(LAMBDA a, k : a \o part(cs[k]), <<>>, [k \in 1..(upto - at - 1) |-> at + k])
Apng(d) ==
  LET cs == Chunks(d, 8, <<>>) IN
  IF ~Sound(d, cs) THEN None
  ELSE
  LET i == Info(d, cs)
      fs == SelectSeq(Iota(Len(cs)), LAMBDA k : cs[k].t = FCTL)
      one(a, n) ==
        LET c == Ctrl(d, cs[fs[n]])
            raw == RawOf(i, FrameData(d, cs, fs[n]), c.w, c.h) IN
        IF ~a.ok \/ ~raw.ok THEN [a EXCEPT !.ok = FALSE]
        ELSE LET rows == ImageRows(i, raw.out, c.w, c.h)
                 base == IF n = 1 THEN Blank([w |-> i.w, h |-> i.h])
                         ELSE LET q == Ctrl(d, cs[fs[n - 1]]) IN
                              IF q.dispose = 1 \/ (q.dispose = 2 /\ n = 2) THEN Window(a.canvas, q, Blank(q))
                              ELSE IF q.dispose = 2 THEN Window(a.canvas, q, a.saved) ELSE a.canvas
                 next == Window(base, c, rows) IN
             [ok |-> TRUE, canvas |-> next, saved |-> Region(base, c), all |-> Append(a.all, Flat(next))] IN
  LET z == FoldLeft(LAMBDA a, n : one(a, n), [ok |-> TRUE, canvas |-> <<>>, saved |-> <<>>, all |-> <<>>], Iota(Len(fs))) IN
  [ok |-> z.ok, w |-> i.w, h |-> i.h, f |-> FormatOf(i.type), all |-> z.all]
=============================================================================
