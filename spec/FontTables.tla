--------------------------------- MODULE FontTables ---------------------------------
(* What the tables of an OpenType font define (property C32): character to glyph mapping (cmap formats 0, 4, 6, 10, 12, 13),   *)
(* horizontal advances (hmtx), legacy kerning (kern, Windows and Mac headers, formats 0, 2 and 3) and glyph bounds (glyf/loca). *)
(* A table is a sequence of bytes; offsets count from 0.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
U8(b, o) == b[o + 1]
U16(b, o) == b[o + 1] * 256 + b[o + 2]
S16(b, o) == LET v == U16(b, o) IN IF v >= 32768 THEN v - 65536 ELSE v
\* 32-bit numbers of a well-formed font are small: larger ones are -1, which no table below accepts.
U32(b, o) == IF b[o + 1] >= 64 THEN -1 ELSE ((b[o + 1] * 256 + b[o + 2]) * 256 + b[o + 3]) * 256 + b[o + 4]
Fits(b, o, n) == o >= 0 /\ n >= 0 /\ o + n <= Len(b)
CharMax == 1114111

(* ---- character maps; s is the offset of a subtable ---- *)
Supported(f) == f \in {0, 4, 6, 10, 12, 13}
Seg(b, s) == U16(b, s + 6) \div 2
SegEnd(b, s, i) == U16(b, s + 14 + 2 * (i - 1))
SegStart(b, s, i) == U16(b, s + 16 + 2 * Seg(b, s) + 2 * (i - 1))
SegDelta(b, s, i) == U16(b, s + 16 + 4 * Seg(b, s) + 2 * (i - 1))
SegOff(b, s, i) == s + 16 + 6 * Seg(b, s) + 2 * (i - 1)
WF4(b, s) == LET n == U16(b, s + 2)  k == Seg(b, s) IN
  /\ n >= 16 /\ Fits(b, s, n) /\ U16(b, s + 6) % 2 = 0 /\ k > 0 /\ n >= 16 + 8 * k
  /\ \A i \in 1..k : /\ SegStart(b, s, i) <= SegEnd(b, s, i)
                     /\ i > 1 => SegStart(b, s, i) > SegEnd(b, s, i - 1)
                     /\ LET r == U16(b, SegOff(b, s, i)) IN
                        r # 0 => r % 2 = 0 /\ SegOff(b, s, i) - s + r + 2 * (SegEnd(b, s, i) - SegStart(b, s, i)) + 2 <= n
  /\ SegEnd(b, s, k) = 65535 /\ SegStart(b, s, k) = 65535 /\ k > 1
  /\ U16(b, SegOff(b, s, k)) = 0 /\ SegDelta(b, s, k) = 1
GrpFirst(b, s, i) == U32(b, s + 16 + 12 * (i - 1))
GrpLast(b, s, i) == U32(b, s + 20 + 12 * (i - 1))
GrpGlyph(b, s, i) == U32(b, s + 24 + 12 * (i - 1))
WFG(b, s, f) == LET n == U32(b, s + 4)  k == U32(b, s + 12) IN
  /\ n >= 16 /\ Fits(b, s, n) /\ k > 0 /\ k < 10000 /\ n >= 16 + 12 * k
  /\ \A i \in 1..k : /\ GrpFirst(b, s, i) >= 0 /\ GrpFirst(b, s, i) <= GrpLast(b, s, i) /\ GrpLast(b, s, i) <= CharMax
                     /\ i > 1 => GrpFirst(b, s, i) > GrpLast(b, s, i - 1)
                     /\ GrpGlyph(b, s, i) >= 0 /\ GrpGlyph(b, s, i) + (IF f = 12 THEN GrpLast(b, s, i) - GrpFirst(b, s, i) ELSE 0) <= 65535
WellFormed(b, s) == Fits(b, s, 6) /\ LET f == U16(b, s) IN
  CASE f = 0 -> U16(b, s + 2) >= 262 /\ Fits(b, s, U16(b, s + 2))
    [] f = 4 -> Fits(b, s, 24) /\ WF4(b, s)
    [] f = 6 -> LET n == U16(b, s + 2) IN Fits(b, s, 10) /\ n >= 12 /\ Fits(b, s, n) /\ U16(b, s + 8) > 0 /\ n >= 10 + 2 * U16(b, s + 8) /\ U16(b, s + 6) + U16(b, s + 8) <= 65535
    [] f = 10 -> /\ Fits(b, s, 20) /\ LET n == U32(b, s + 4)  c == U32(b, s + 16)  a == U32(b, s + 12) IN
                      n >= 22 /\ Fits(b, s, n) /\ c > 0 /\ c < 70000 /\ n >= 20 + 2 * c /\ a >= 0 /\ a + c <= CharMax
    [] f \in {12, 13} -> Fits(b, s, 28) /\ WFG(b, s, f)
    [] OTHER -> FALSE
Map(b, s, c) == LET f == U16(b, s) IN
  CASE f = 0 -> IF c < 256 THEN U8(b, s + 6 + c) ELSE 0
    [] f = 4 -> LET m == {i \in 1..Seg(b, s) : SegStart(b, s, i) <= c /\ c <= SegEnd(b, s, i)} IN
                IF m = {} THEN 0
                ELSE LET i == CHOOSE i \in m : TRUE  r == U16(b, SegOff(b, s, i)) IN
                     IF r = 0 THEN (c + SegDelta(b, s, i)) % 65536
                     ELSE LET v == U16(b, SegOff(b, s, i) + r + 2 * (c - SegStart(b, s, i))) IN IF v = 0 THEN 0 ELSE (v + SegDelta(b, s, i)) % 65536
    [] f = 6 -> LET a == U16(b, s + 6) IN IF c >= a /\ c < a + U16(b, s + 8) THEN U16(b, s + 10 + 2 * (c - a)) ELSE 0
    [] f = 10 -> LET a == U32(b, s + 12) IN IF c >= a /\ c < a + U32(b, s + 16) THEN U16(b, s + 20 + 2 * (c - a)) ELSE 0
    [] OTHER -> LET m == {i \in 1..U32(b, s + 12) : GrpFirst(b, s, i) <= c /\ c <= GrpLast(b, s, i)} IN
                IF m = {} THEN 0 ELSE LET i == CHOOSE i \in m : TRUE IN IF f = 12 THEN GrpGlyph(b, s, i) + c - GrpFirst(b, s, i) ELSE GrpGlyph(b, s, i)
\* The characters the subtable covers: for segmented formats whole segments.
Covers(b, s, c) == LET f == U16(b, s) IN
  CASE f = 4 -> c < 65535 /\ (\E i \in 1..Seg(b, s) : SegStart(b, s, i) <= c /\ c <= SegEnd(b, s, i))
    [] f \in {12, 13} -> \E i \in 1..U32(b, s + 12) : GrpFirst(b, s, i) <= c /\ c <= GrpLast(b, s, i)
    [] OTHER -> Map(b, s, c) # 0
\* The preferred encoding: Windows full Unicode, Windows BMP, the Unicode platform, symbol, Mac Roman; the first of equals.
Score(p, e, f) == CASE p = 3 /\ e \in {1, 10} -> 131072 + e [] p = 3 /\ e = 0 -> 2 [] p = 0 -> 65536 + e [] p = 1 /\ e = 0 /\ f = 0 -> 1 [] OTHER -> 0
Records(b) == IF Fits(b, 0, 4) /\ Fits(b, 4, 8 * U16(b, 2)) THEN U16(b, 2) ELSE 0
Rec(b, i) == [p |-> U16(b, 4 + 8 * (i - 1)), e |-> U16(b, 6 + 8 * (i - 1)), o |-> U32(b, 8 + 8 * (i - 1))]
Usable(b, i) == LET r == Rec(b, i) IN Fits(b, r.o, 2) /\ r.o >= 0 /\ Supported(U16(b, r.o)) /\ Score(r.p, r.e, U16(b, r.o)) > 0
RecScore(b, i) == LET r == Rec(b, i) IN Score(r.p, r.e, U16(b, r.o))
\* Offset of the subtable in use; -1: none; -2: some subtable is malformed, so that any (or none) may be in use.
Chosen(b) == IF Len(b) < 4 THEN -1 ELSE
             LET us == {i \in 1..Records(b) : Usable(b, i)} IN
             IF us = {} THEN -1
             ELSE IF \E i \in us : ~WellFormed(b, Rec(b, i).o) THEN -2
             ELSE Rec(b, CHOOSE i \in us : \A k \in us : RecScore(b, k) < RecScore(b, i) \/ (RecScore(b, k) = RecScore(b, i) /\ k >= i)).o

(* ---- horizontal advances ---- *)
Advance(hmtx, longs, g) == U16(hmtx, 4 * (IF g < longs THEN g ELSE longs - 1))

(* ---- kerning: the subtables of a kern table as [fmt, over, min, at (start with header), hdr, hor: horizontal values for advances] ---- *)
Mac(b) == U16(b, 0) = 1
NTables(b) == IF Mac(b) THEN U32(b, 4) ELSE U16(b, 2)
RECURSIVE KernFrom(_, _, _)
KernFrom(b, o, k) == IF k = 0 THEN <<>>
  ELSE LET len == IF Mac(b) THEN U32(b, o) ELSE U16(b, o + 2)
           r == IF Mac(b) THEN [fmt |-> U8(b, o + 5), over |-> FALSE, min |-> FALSE, at |-> o, hdr |-> 8, hor |-> U8(b, o + 4) < 32]
                ELSE [fmt |-> U8(b, o + 4), over |-> (U8(b, o + 5) \div 8) % 2 = 1, min |-> (U8(b, o + 5) \div 2) % 2 = 1, at |-> o, hdr |-> 6, hor |-> U8(b, o + 5) % 2 = 1 /\ (U8(b, o + 5) \div 4) % 2 = 0]
       IN <<r>> \o KernFrom(b, o + len, k - 1)
KernTables(b) == IF Len(b) = 0 THEN <<>> ELSE SelectSeq(KernFrom(b, IF Mac(b) THEN 8 ELSE 4, NTables(b)), LAMBDA r : r.hor /\ r.fmt \in {0, 2, 3})
NoPair == 100000
Pair0(b, r, x, y) == LET o == r.at + r.hdr  m == {i \in 0..(U16(b, o) - 1) : U16(b, o + 8 + 6 * i) = x /\ U16(b, o + 10 + 6 * i) = y} IN
  IF m = {} THEN NoPair ELSE S16(b, o + 12 + 6 * (CHOOSE i \in m : TRUE))
Class2(b, c, x) == LET i == x - U16(b, c) IN IF i >= 0 /\ i < U16(b, c + 2) THEN U16(b, c + 4 + 2 * i) ELSE 0
Pair2(b, r, x, y) == LET o == r.at + r.hdr  lc == Class2(b, r.at + U16(b, o + 2), x)  rc == Class2(b, r.at + U16(b, o + 4), y) IN
  IF lc = 0 \/ rc = 0 THEN NoPair ELSE S16(b, r.at + lc + rc)
Pair3(b, r, x, y) == LET o == r.at + r.hdr  n == U16(b, o)  v == U8(b, o + 2)  w == U8(b, o + 4) IN
  IF x >= n \/ y >= n THEN NoPair ELSE S16(b, o + 6 + 2 * U8(b, o + 6 + 2 * v + 2 * n + w * U8(b, o + 6 + 2 * v + x) + U8(b, o + 6 + 2 * v + n + y)))
PairOf(b, r, x, y) == CASE r.fmt = 0 -> Pair0(b, r, x, y) [] r.fmt = 2 -> Pair2(b, r, x, y) [] OTHER -> Pair3(b, r, x, y)
RECURSIVE KernSum(_, _, _, _, _, _)
KernSum(b, ks, i, acc, x, y) == IF i > Len(ks) THEN acc
  ELSE LET v == PairOf(b, ks[i], x, y) IN
       KernSum(b, ks, i + 1, IF v = NoPair THEN acc ELSE IF ks[i].over THEN v ELSE IF ks[i].min THEN (IF v < acc THEN v ELSE acc) ELSE acc + v, x, y)
Kern(b, ks, x, y) == KernSum(b, ks, 1, 0, x, y)

(* ---- the scripts and features a layout table (GSUB, GPOS) lists; a tag is a 32-bit number, here minus 2^31 ---- *)
Tag(b, o) == (((U8(b, o) - 128) * 256 + U8(b, o + 1)) * 256 + U8(b, o + 2)) * 256 + U8(b, o + 3)
LatnTag == ((-20 * 256 + 97) * 256 + 116) * 256 + 110
DfltTag == ((-60 * 256 + 70) * 256 + 76) * 256 + 84
KernTag == ((-21 * 256 + 101) * 256 + 114) * 256 + 110
ListTags(b, o) == IF o = 0 THEN {} ELSE {Tag(b, o + 2 + 6 * i) : i \in 0..(U16(b, o) - 1)}
ScriptTags(b) == IF Len(b) = 0 THEN {} ELSE ListTags(b, U16(b, 4))
FeatureTags(b) == IF Len(b) = 0 THEN {} ELSE ListTags(b, U16(b, 6))
\* The script in use: latn, otherwise the default one; 0: none. Then the features of its default language, those turned on, and their lookups.
ScriptAt(b) == LET o == U16(b, 4)  n == U16(b, o)  R(i) == Tag(b, o + 2 + 6 * i)
                   la == {i \in 0..(n - 1) : R(i) = LatnTag}  de == {i \in 0..(n - 1) : R(i) = DfltTag}
                   i == IF la # {} THEN CHOOSE i \in la : \A k \in la : i <= k ELSE CHOOSE i \in de : \A k \in de : k <= i
               IN IF o = 0 \/ (la = {} /\ de = {}) THEN 0 ELSE o + U16(b, o + 6 + 6 * i)
Lookups(b, on) == LET s == ScriptAt(b)  y == s + U16(b, s)  f == U16(b, 6)
                      is == {U16(b, y + 2)} \union {U16(b, y + 6 + 2 * i) : i \in 0..(U16(b, y + 4) - 1)}
                      us == {i \in is : i < U16(b, f) /\ Tag(b, f + 2 + 6 * i) \in on}
                      LOf(i) == LET a == f + U16(b, f + 6 + 6 * i) IN {U16(b, a + 4 + 2 * k) : k \in 0..(U16(b, a + 2) - 1)}
                  IN IF Len(b) = 0 \/ U16(b, 8) = 0 \/ f = 0 \/ s = 0 \/ U16(b, s) = 0 THEN {} ELSE UNION {LOf(i) : i \in us}
\* Index of a glyph in a coverage table; -1: not covered.
CovIndex(b, c, g) == LET n == U16(b, c + 2) IN
  IF U16(b, c) = 1 THEN LET m == {i \in 0..(n - 1) : U16(b, c + 4 + 2 * i) = g} IN IF m = {} THEN -1 ELSE CHOOSE i \in m : TRUE
  ELSE LET m == {i \in 0..(n - 1) : U16(b, c + 4 + 6 * i) <= g /\ g <= U16(b, c + 6 + 6 * i)} IN
       IF m = {} THEN -1 ELSE LET i == CHOOSE i \in m : TRUE IN U16(b, c + 8 + 6 * i) + g - U16(b, c + 4 + 6 * i)
\* One subtable at s applied to glyphs: single, multiple, alternate (the first alternative) and ligature substitution.
List(b, o) == [i \in 1..U16(b, o) |-> U16(b, o + 2 * i)]
\* Ligatures that match q at position p, by preference: <<glyph, number of glyphs consumed>>.
Ligs(b, o, q, p) == {k \in 1..U16(b, o) : LET a == o + U16(b, o + 2 * k)  n == U16(b, a + 2) IN p + n - 1 <= Len(q) /\ \A z \in 1..(n - 1) : q[p + z] = U16(b, a + 2 + 2 * z)}
RECURSIVE SubstFrom(_, _, _, _, _)
SubstFrom(b, ty, s, q, p) == IF p > Len(q) THEN <<>> ELSE
  LET g == q[p]  i == CovIndex(b, s + U16(b, s + 2), g)
      o == s + U16(b, s + 6 + 2 * i)
      ls == IF ty = 4 /\ i >= 0 THEN Ligs(b, o, q, p) ELSE {}
      a == IF ls = {} THEN 0 ELSE o + U16(b, o + 2 * (CHOOSE k \in ls : \A h \in ls : k <= h))
      r == CASE i < 0 -> <<g>>
             [] ty = 1 /\ U16(b, s) = 1 -> <<(g + U16(b, s + 4)) % 65536>>
             [] ty = 1 -> <<U16(b, s + 6 + 2 * i)>>
             [] ty = 2 -> List(b, o)
             [] ty = 3 -> <<U16(b, o + 2)>>
             [] OTHER -> IF ls = {} THEN <<g>> ELSE <<U16(b, a)>>
  IN r \o SubstFrom(b, ty, s, q, p + (IF ls = {} THEN 1 ELSE U16(b, a + 2)))
RECURSIVE SubstAll(_, _, _)
SubstAll(b, ls, q) == IF ls = {} THEN q ELSE
  LET i == CHOOSE i \in ls : \A k \in ls : i <= k
      l == U16(b, 8) + U16(b, U16(b, 8) + 2 + 2 * i)
  IN SubstAll(b, ls \ {i}, SubstFrom(b, U16(b, l), l + U16(b, l + 6), q, 1))
\* Positioning: a lookup with one subtable at s, single or pair adjustment, adds a value record to glyph p of q; -1: nothing is added.
Bit(v, k) == (v \div (2 ^ k)) % 2
Size(f) == 2 * (Bit(f, 0) + Bit(f, 1) + Bit(f, 2) + Bit(f, 3) + Bit(f, 4) + Bit(f, 5) + Bit(f, 6) + Bit(f, 7))
Class(b, c, g) == IF U16(b, c) = 1 THEN LET i == g - U16(b, c + 2) IN IF i >= 0 /\ i < U16(b, c + 4) THEN U16(b, c + 6 + 2 * i) ELSE 0
                  ELSE LET m == {i \in 0..(U16(b, c + 2) - 1) : U16(b, c + 4 + 6 * i) <= g /\ g <= U16(b, c + 6 + 6 * i)} IN IF m = {} THEN 0 ELSE U16(b, c + 8 + 6 * (CHOOSE i \in m : TRUE))
ValueAt(b, ty, s, q, p) ==
  LET i == CovIndex(b, s + U16(b, s + 2), q[p])  z == Size(U16(b, s + 4)) IN
  CASE i < 0 -> -1
    [] ty = 1 -> IF U16(b, s) = 1 THEN s + 6 ELSE s + 8 + z * i
    [] p = Len(q) -> -1
    [] U16(b, s) = 1 -> LET a == s + U16(b, s + 10 + 2 * i)  m == {k \in 0..(U16(b, a) - 1) : U16(b, a + 2 + (z + 2) * k) = q[p + 1]} IN
                        IF m = {} THEN -1 ELSE a + 4 + (z + 2) * (CHOOSE k \in m : TRUE)
    [] OTHER -> s + 16 + z * (Class(b, s + U16(b, s + 8), q[p]) * U16(b, s + 14) + Class(b, s + U16(b, s + 10), q[p + 1]))
\* Component k of a value record (0: x placement, 1: y placement, 2: x advance, 3: y advance).
Part(b, s, v, k) == LET f == U16(b, s + 4) IN
  IF v < 0 \/ Bit(f, k) = 0 THEN 0 ELSE S16(b, v + 2 * ((IF k > 0 THEN Bit(f, 0) ELSE 0) + (IF k > 1 THEN Bit(f, 1) ELSE 0) + (IF k > 2 THEN Bit(f, 2) ELSE 0)))
RECURSIVE Adjust(_, _, _, _, _)
Adjust(b, ls, q, p, k) == IF ls = {} THEN 0 ELSE
  LET i == CHOOSE i \in ls : TRUE
      l == U16(b, 8) + U16(b, U16(b, 8) + 2 + 2 * i)
      s == l + U16(b, l + 6)
  IN Part(b, s, ValueAt(b, U16(b, l), s, q, p), k) + Adjust(b, ls \ {i}, q, p, k)
\* Positioning with a kern feature replaces the kern table.
OwnKern(b) == Len(b) > 0 /\ U16(b, 8) > 0 /\ KernTag \in FeatureTags(b)
Ascending(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]

(* ---- bounds of a glyph: none for a glyph without outline ---- *)
HasData(loca, g) == U16(loca, 2 * g) < U16(loca, 2 * g + 2)
Bounds(glyf, loca, g) == IF ~HasData(loca, g) THEN <<0, 0, 0, 0>>
  ELSE LET o == 2 * U16(loca, 2 * g) IN <<S16(glyf, o + 2), -S16(glyf, o + 8), S16(glyf, o + 6), -S16(glyf, o + 4)>>
=====================================================================================
