-------------------------------- MODULE BitSetSpec ---------------------------------
(* Sets of indexes from a huge index space, described by the points where membership begins (st) and ends (en); both   *)
(* are disjoint finite sets and determine the set uniquely, so equality of descriptions is equality of the sets.      *)
EXTENDS Integers, FiniteSets, Sequences
Empty == [st |-> {}, en |-> {}]
Interval(a, b) == IF a < b THEN [st |-> {a}, en |-> {b}] ELSE Empty
\* p is a member / p-1 is a member
In(p, S) == Cardinality({x \in S.st : x <= p}) > Cardinality({x \in S.en : x <= p})
Before(p, S) == Cardinality({x \in S.st : x < p}) > Cardinality({x \in S.en : x < p})
Pts(A, B) == A.st \cup A.en \cup B.st \cup B.en
Union(A, B) == LET P == Pts(A, B) in == {p \in P : In(p, A) \/ In(p, B)} be == {p \in P : Before(p, A) \/ Before(p, B)} IN [st |-> in \ be, en |-> be \ in]
Intersect(A, B) == LET P == Pts(A, B) in == {p \in P : In(p, A) /\ In(p, B)} be == {p \in P : Before(p, A) /\ Before(p, B)} IN [st |-> in \ be, en |-> be \ in]
Minus(A, B) == LET P == Pts(A, B) in == {p \in P : In(p, A) /\ ~In(p, B)} be == {p \in P : Before(p, A) /\ ~Before(p, B)} IN [st |-> in \ be, en |-> be \ in]
Min(X) == CHOOSE x \in X : \A y \in X : x <= y
Max(X) == CHOOSE x \in X : \A y \in X : x >= y
IsEmpty(A) == A.st = {}
Subset(A, B) == IsEmpty(Minus(A, B))
\* The smallest index at which two sets differ decides: the set that has it is greater.
Compare(A, B) == LET d == Union(Minus(A, B), Minus(B, A)) IN IF IsEmpty(d) THEN 0 ELSE IF In(Min(d.st), A) THEN 1 ELSE -1
\* Cardinality in 16-bit limbs <<hi, lo>>: sum over intervals of (end - start).
RECURSIVE Sum(_, _)
Sum(F(_), X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN F(x) + Sum(F, X \ {x})
Hi(x) == x \div 65536
Lo(x) == x % 65536
Card(A) == LET h == Sum(Hi, A.en) - Sum(Hi, A.st)  lo == Sum(Lo, A.en) - Sum(Lo, A.st) IN <<h + lo \div 65536, lo % 65536>>
====================================================================================
