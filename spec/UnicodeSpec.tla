---------------------------- MODULE UnicodeSpec ----------------------------
(* Text encodings (C24). A text is a sequence of code units; decoding yields characters one after another. *)
EXTENDS Integers, Sequences
Latin1 == 0  Utf8 == 1  Utf16 == 2  Utf32 == 3
Success == 0  Invalid == 1  Truncated == 2  NoSpace == 3
IsSur(c) == c >= 55296 /\ c <= 57343
IsHi(c) == c >= 55296 /\ c <= 56319
IsLo(c) == c >= 56320 /\ c <= 57343
CharMax == 1114111
Cont(x) == x >= 128 /\ x <= 191
\* One character of `u` at i: [st: set of allowed results, c: character, n: number of units].
Bad(S) == [st |-> S, c |-> 65533, n |-> 1]
Good(c, n) == [st |-> {Success}, c |-> c, n |-> n]
Next8(u, i, strict) ==
  LET a == u[i]
      need == IF a >= 194 /\ a <= 223 THEN 2 ELSE IF a >= 224 /\ a <= 239 THEN 3 ELSE 4
      have == Len(u) - i + 1
      b(k) == u[i + k] % 64
  IN IF a < 128 THEN Good(a, 1)
     ELSE IF a < 194 \/ a > 244 THEN Bad({Invalid})
     ELSE IF have < need
          THEN \* Truncated; also invalid when what is there is not a prefix of a character.
               Bad({Truncated} \cup (IF (\E k \in 1..(have - 1) : ~Cont(u[i + k])) \/ (have > 1 /\ a \in {224, 237, 240, 244}) THEN {Invalid} ELSE {}))
     ELSE IF \E k \in 1..(need - 1) : ~Cont(u[i + k]) THEN Bad({Invalid})
     ELSE LET c == CASE need = 2 -> (a - 192) * 64 + b(1)
                     [] need = 3 -> (a - 224) * 4096 + b(1) * 64 + b(2)
                     [] OTHER    -> (a - 240) * 262144 + b(1) * 4096 + b(2) * 64 + b(3)
          IN IF c > CharMax \/ (need = 3 /\ c < 2048) \/ (need = 4 /\ c < 65536) \/ (strict /\ IsSur(c)) THEN Bad({Invalid})
             ELSE Good(c, need)
Next16(u, i, strict) ==
  LET a == u[i] IN
  IF IsHi(a) /\ i < Len(u) /\ IsLo(u[i + 1]) THEN Good(65536 + (a - 55296) * 1024 + (u[i + 1] - 56320), 2)
  ELSE IF ~IsSur(a) \/ ~strict THEN Good(a, 1)
  ELSE IF IsHi(a) /\ i = Len(u) THEN Bad({Truncated}) ELSE Bad({Invalid})
\* 32-bit units are given as <<low 16 bits, high 16 bits>>.
Next32(u, i, strict) ==
  LET lo == u[i][1] hi == u[i][2] IN
  IF hi > 16 THEN Bad({Invalid})
  ELSE LET c == hi * 65536 + lo IN IF strict /\ IsSur(c) THEN Bad({Invalid}) ELSE Good(c, 1)
NextChar(enc, u, i, strict) ==
  CASE enc = Latin1 -> Good(u[i], 1) [] enc = Utf8 -> Next8(u, i, strict) [] enc = Utf16 -> Next16(u, i, strict) [] OTHER -> Next32(u, i, strict)
\* Units a character takes.
Size8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Size16(c) == IF c < 65536 THEN 1 ELSE 2
SizeOf(enc, c) == IF enc = Utf8 THEN Size8(c) ELSE IF enc = Utf16 THEN Size16(c) ELSE 1
Encode(enc, c) ==
  CASE enc = Latin1 -> <<c>>
    [] enc = Utf8 -> (IF c < 128 THEN <<c>>
                      ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
                      ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
                      ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>)
    [] enc = Utf16 -> (IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>)
    [] OTHER -> <<<<c % 65536, c \div 65536>>>>
\* Text given to a glyph buffer: every unit that starts no character is replaced by U+FFFD.
RECURSIVE Decode(_, _, _)
Decode(enc, u, i) ==
  IF i > Len(u) THEN [c |-> <<>>, x |-> <<>>, bad |-> 0]
  ELSE LET k == NextChar(enc, u, i, FALSE)
           r == Decode(enc, u, i + k.n)
       IN [c |-> <<k.c>> \o r.c, x |-> <<i - 1>> \o r.x, bad |-> IF Success \in k.st THEN r.bad ELSE 1]
RECURSIVE UpToZero(_, _)
UpToZero(u, i) == IF i > Len(u) \/ u[i] \in {0} THEN SubSeq(u, 1, i - 1) ELSE UpToZero(u, i + 1)
RECURSIVE UpToZero32(_, _)
UpToZero32(u, i) == IF i > Len(u) \/ u[i] = <<0, 0>> THEN SubSeq(u, 1, i - 1) ELSE UpToZero32(u, i + 1)
\* Strict validation: [st, n8, n16, n32] up to the first ill-formed character.
RECURSIVE Validate(_, _, _, _, _, _)
Validate(enc, u, i, n8, n16, n32) ==
  IF i > Len(u) THEN [st |-> {Success}, i |-> i - 1, n8 |-> n8, n16 |-> n16, n32 |-> n32]
  ELSE LET k == NextChar(enc, u, i, TRUE) IN
       IF Success \notin k.st THEN [st |-> k.st, i |-> i - 1, n8 |-> n8, n16 |-> n16, n32 |-> n32]
       ELSE Validate(enc, u, i + k.n, n8 + Size8(k.c), n16 + Size16(k.c), n32 + 1)
\* Strict conversion into `cap` units: [st, si: source units used, out].
RECURSIVE Convert(_, _, _, _, _, _)
Convert(denc, cap, enc, u, i, out) ==
  IF i > Len(u) THEN [st |-> {Success}, si |-> i - 1, out |-> out]
  ELSE LET k == NextChar(enc, u, i, TRUE) IN
       IF Success \notin k.st THEN [st |-> k.st \cup (IF enc = denc THEN {NoSpace} ELSE {}), si |-> i - 1, out |-> out]
       ELSE LET w == Encode(denc, k.c) IN
            IF Len(out) + Len(w) > cap THEN [st |-> {NoSpace} , si |-> i - 1, out |-> out]
            ELSE Convert(denc, cap, enc, u, i + k.n, out \o w)
=============================================================================
