---------------------------------- MODULE Matrix -----------------------------------
(* 2D matrices <<m00, m01, m10, m11, m20, m21>> whose linear part counts in units of 1/U and translation in units of 1/U. *)
EXTENDS Integers, Sequences
CONSTANT U
Id == <<U, 0, 0, U, 0, 0>>
\* B * A: first B, then A (row vectors).
Mul(b, a) == LET p(x, y) == (x * y) \div U IN
  << p(b[1], a[1]) + p(b[2], a[3]), p(b[1], a[2]) + p(b[2], a[4]),
     p(b[3], a[1]) + p(b[4], a[3]), p(b[3], a[2]) + p(b[4], a[4]),
     p(b[5], a[1]) + p(b[6], a[3]) + a[5], p(b[5], a[2]) + p(b[6], a[4]) + a[6] >>
Trans(x, y) == <<U, 0, 0, U, x, y>>
Scale(x, y) == <<x, 0, 0, y, 0, 0>>
Skew(x, y) == <<U, y, x, U, 0, 0>>                 \* x, y: tangents
\* k quarter turns
Rot(k) == CASE k % 4 = 0 -> Id [] k % 4 = 1 -> <<0, U, -U, 0, 0, 0>> [] k % 4 = 2 -> <<-U, 0, 0, -U, 0, 0>> [] OTHER -> <<0, -U, U, 0, 0, 0>>
RotAt(k, x, y) == Mul(Mul(Trans(-x, -y), Rot(k)), Trans(x, y))
\* op: BLTransformOp; d: numeric operands; m: matrix operand
OpMatrix(op, d, m) == CASE op \in {2, 8} -> Trans(d[1], d[2]) [] op \in {3, 9} -> Scale(d[1], d[2]) [] op \in {4, 10} -> Skew(d[1], d[2])
                       [] op \in {5, 11} -> Rot(d[1]) [] op \in {6, 12} -> RotAt(d[1], d[2], d[3]) [] OTHER -> m
Apply(a, op, d, m) == CASE op = 0 -> Id [] op = 1 -> m [] op \in 2..7 -> Mul(OpMatrix(op, d, m), a) [] OTHER -> Mul(a, OpMatrix(op, d, m))
Det(m) == (m[1] * m[4]) \div U - (m[2] * m[3]) \div U
\* Types: 0 identity, 1 translation, 2 scaling, 3 swap, 4 affine, 5 invalid.
Types(m) ==
  IF m[2] = 0 /\ m[3] = 0 THEN IF m[1] = 0 \/ m[4] = 0 THEN {5} ELSE IF m[1] # U \/ m[4] # U THEN {2} ELSE IF m[5] = 0 /\ m[6] = 0 THEN {0} ELSE {1}
  ELSE IF m[1] = 0 /\ m[4] = 0 THEN IF m[2] = 0 \/ m[3] = 0 THEN {5} ELSE {3}
  ELSE IF m[1] * m[4] = m[2] * m[3] THEN {4, 5} ELSE {4}
MapVec(m, p) == << (p[1] * m[1]) \div U + (p[2] * m[3]) \div U, (p[1] * m[2]) \div U + (p[2] * m[4]) \div U >>
MapPoint(m, p) == LET v == MapVec(m, p) IN <<v[1] + m[5], v[2] + m[6]>>
====================================================================================
