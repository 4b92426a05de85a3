------------------------------- MODULE BitArraySpec --------------------------------
(* Bit arrays: a bit array is a size and the set of positions (below the size) that are one.                           *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANT Slots
VARIABLE ba          \* slot -> [n |-> size, s |-> set of one-bits]
Empty == [n |-> 0, s |-> {}]
Init == ba = [k \in Slots |-> Empty]
Min(a, b) == IF a < b THEN a ELSE b
SetMin(X) == CHOOSE x \in X : \A y \in X : x <= y
SetMax(X) == CHOOSE x \in X : \A y \in X : x >= y
Span(i, j) == i..(j - 1)
Shift(w, i) == {x + i : x \in w}
Set(k, n, s) == ba' = [ba EXCEPT ![k] = [n |-> n, s |-> s]]
Keep == UNCHANGED ba
N(k) == ba[k].n
B(k) == ba[k].s

Resize(k, m) == Set(k, m, {x \in B(k) : x < m})
\* Modifying operations fail and change nothing when they start past the end; ranges and words are cut at the end.
Guarded(k, i, ok, A) == IF i < N(k) THEN ok /\ A ELSE ~ok /\ Keep
SetBit(k, i, v) == Set(k, N(k), IF v THEN B(k) \cup {i} ELSE B(k) \ {i})
Range(k, i, j, v) == LET r == Span(i, Min(j, N(k))) IN Set(k, N(k), IF v THEN B(k) \cup r ELSE B(k) \ r)
Cut(k, i, w) == {x \in Shift(w, i) : x < N(k)}
FillWords(k, i, w) == Set(k, N(k), B(k) \cup Cut(k, i, w))
ClearWords(k, i, w) == Set(k, N(k), B(k) \ Cut(k, i, w))
ReplaceWords(k, i, w, wn) == Set(k, N(k), (B(k) \ Span(i, Min(N(k), i + 32 * wn))) \cup Cut(k, i, w))
AppendWords(k, w, wn) == Set(k, N(k) + 32 * wn, B(k) \cup Shift(w, N(k)))
AppendBit(k, v) == Set(k, N(k) + 1, IF v THEN B(k) \cup {N(k)} ELSE B(k))

\* Order: the first position at which two arrays differ decides (zeros beyond the end), then the size.
Compare(a, b) == LET d == (a.s \ b.s) \cup (b.s \ a.s) lim == ((Min(a.n, b.n) + 31) \div 32) * 32  dl == {x \in d : x < lim} IN
                 IF dl # {} THEN (IF SetMin(dl) \in a.s THEN 1 ELSE -1) ELSE IF a.n = b.n THEN 0 ELSE IF a.n < b.n THEN -1 ELSE 1
\* Types and laws checked on their own by BitArrayLaws.
TypeOK == \A k \in Slots : B(k) \subseteq Span(0, N(k))
====================================================================================
