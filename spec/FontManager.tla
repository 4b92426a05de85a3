-------------------------------- MODULE FontManager ---------------------------------
(* What a font manager is (property C31): a set of faces, at most one per family name and (style, weight, stretch), shared by *)
(* all copies of the handle; families are found regardless of ASCII letter case, queries return the nearest face.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
SameCI(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Lower(a[i]) = Lower(b[i])
CaseDiff(a, b) == LET n == Cardinality({i \in 1..Len(a) : a[i] # b[i]}) IN IF n > 255 THEN 255 ELSE n
Key(f) == <<f.fam, f.style, f.weight, f.stretch>>
Abs(x) == IF x < 0 THEN -x ELSE x
\* Distance from what was asked for; of two equally distant faces the smaller value is nearer.
Dist(want, has) == 2 * Abs(want - has) + (IF want < has THEN 1 ELSE 0)
Ask(q) == IF q.props THEN [style |-> q.style, weight |-> IF q.weight = 0 THEN 400 ELSE q.weight, stretch |-> IF q.stretch = 0 THEN 5 ELSE q.stretch]
          ELSE [style |-> 0, weight |-> 400, stretch |-> 5]
ValidQuery(q) == ~q.props \/ (q.style <= 2 /\ q.weight <= 1000 /\ q.stretch <= 9)
RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Less(a, b, i + 1)
\* The documentation ranks style first and weight last, the implementation ranks stretch last: both are accepted.
Rank1(F, q, f) == LET p == Ask(q) IN <<CaseDiff(F[f].fam, q.name), Dist(p.style, F[f].style), Dist(p.weight, F[f].weight), Dist(p.stretch, F[f].stretch)>>
Rank2(F, q, f) == LET p == Ask(q) IN <<CaseDiff(F[f].fam, q.name), Dist(p.style, F[f].style), Dist(p.stretch, F[f].stretch), Dist(p.weight, F[f].weight)>>
Matching(F, set, name) == IF name = <<>> THEN {} ELSE {f \in set : SameCI(F[f].fam, name)}
Best(F, set, q) == LET m == Matching(F, set, q.name) IN
  {f \in m : \A h \in m : ~Less(Rank1(F, q, h), Rank1(F, q, f), 1)} \cup {f \in m : \A h \in m : ~Less(Rank2(F, q, h), Rank2(F, q, f), 1)}
\* The faces of a family are those of the spelling nearest to the one asked for.
Spellings(F, set, name) == LET m == Matching(F, set, name) IN {f \in m : \A h \in m : CaseDiff(F[h].fam, name) >= CaseDiff(F[f].fam, name)}
FacesOf(F, set, name, got) == LET s == Spellings(F, set, name) IN got # {} /\ (\E f \in s : got = {h \in s : F[h].fam = F[f].fam})
Families(F, set) == {F[f].fam : f \in set}
Add(F, set, f) == IF \E h \in set : Key(F[h]) = Key(F[f]) THEN set ELSE set \cup {f}
=====================================================================================
