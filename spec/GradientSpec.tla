-------------------------------- MODULE GradientSpec --------------------------------
(* A gradient: type, extend mode, six values, transformation and stops <<offset, a, r, g, b>> ordered by offset, at most *)
(* two of them at one offset (property C07).                                                                           *)
EXTENDS Integers, Sequences, FiniteSets
ONE == 64
M == INSTANCE Matrix WITH U <- 64
Blank == [type |-> 0, ext |-> 0, val |-> <<0, 0, 0, 0, 0, 0>>, m |-> M!Id, stops |-> <<>>]
Used(ty) == CASE ty = 0 -> 4 [] ty = 1 -> 6 [] OTHER -> 4
ValidOffset(f) == f \in 0..ONE
Off(s) == s[1]
RemoveAt(q, a, b) == SubSeq(q, 1, a) \o SubSeq(q, b + 1, Len(q))            \* removes a+1..b
\* Adding: after the stops that are not behind it; the second of two at the same offset is replaced.
Count(q, f) == Cardinality({i \in 1..Len(q) : Off(q[i]) = f})
NotBehind(q, f) == Cardinality({i \in 1..Len(q) : Off(q[i]) <= f})
Add(q, s) == LET k == NotBehind(q, Off(s)) IN
  IF Count(q, Off(s)) >= 2 THEN [q EXCEPT ![k] = s] ELSE SubSeq(q, 1, k) \o <<s>> \o SubSeq(q, k + 1, Len(q))
\* A list of stops in any order: sorted, stable, the first and the last of those at one offset.
RECURSIVE Sorted(_, _)
Sorted(q, r) == IF q = <<>> THEN r ELSE Sorted(Tail(q), Add(r, q[1]))
AllValid(q) == \A i \in 1..Len(q) : ValidOffset(Off(q[i]))
WellFormed(q) == (\A i \in 1..Len(q) - 1 : Off(q[i]) <= Off(q[i + 1])) /\ \A i \in 1..Len(q) - 2 : Off(q[i]) # Off(q[i + 2])
Replace(q, i, s) == IF Off(q[i]) = Off(s) THEN [q EXCEPT ![i] = s] ELSE Add(RemoveAt(q, i - 1, i), s)
First(q, P(_)) == LET c == {i \in 1..Len(q) : P(q[i])} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A k \in c : i <= k
=====================================================================================
