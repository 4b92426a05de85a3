----------------------------- MODULE ArraySpec -----------------------------
(* Arrays as sequences of values (property C01).  The state is the content of a finite number of array objects.    *)
(* Storage (inline, heap, shared, external) is invisible: every operation is a function of the contents alone.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots      \* the array objects
VARIABLES items      \* items[s]: the observable content of array s

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* 0-based half-open slice and splice.
Slice(q, i, j) == SubSeq(q, i + 1, j)
Splice(q, i, j, v) == Slice(q, 0, i) \o v \o Slice(q, j, Len(q))
\* The documented clamping of ranges: an end past the size means the size, a start past the end means the end.
ClampEnd(q, j) == Min(j, Len(q))
ClampStart(q, i, j) == Min(i, ClampEnd(q, j))
Fill(n, v) == [k \in 1..n |-> v]

Set(s, q) == items' = [items EXCEPT ![s] = q]

TypeOK == \A s \in Slots : items[s] \in Seq(Int)
Init == items = [s \in Slots |-> <<>>]

Clear(s)             == Set(s, <<>>)
Keep                 == UNCHANGED items
Resize(s, n, v)      == LET q == items[s] IN Set(s, IF n <= Len(q) THEN Slice(q, 0, n) ELSE q \o Fill(n - Len(q), v))
Put(s, i, v)         == i < Len(items[s]) /\ Set(s, [items[s] EXCEPT ![i + 1] = v])
Assign(s, v)         == Set(s, v)
Append_(s, v)        == Set(s, items[s] \o v)
Insert(s, i, v)      == i <= Len(items[s]) /\ Set(s, Splice(items[s], i, i, v))
Replace(s, i, j, v)  == LET q == items[s] IN Set(s, Splice(q, ClampStart(q, i, j), ClampEnd(q, j), v))
Remove(s, i, j)      == Replace(s, i, j, <<>>)
Copy(s, o)           == Set(s, items[o])
Move(s, o)           == items' = IF s = o THEN items ELSE [items EXCEPT ![s] = items[o], ![o] = <<>>]
Part(s, i, n)        == Slice(items[s], i, i + n)
Equal(s, o)          == items[s] = items[o]
=============================================================================
