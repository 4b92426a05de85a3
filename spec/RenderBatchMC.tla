--------------------------- MODULE RenderBatchMC ---------------------------
(* All histories of one batch at the level of RenderBatch. *)
EXTENDS RenderBatch
CONSTANTS Workers, NJ, NC, NB
VARIABLES b, cnt, rounds
Init == b = Idle /\ cnt = [i \in 1..NJ |-> 0] /\ rounds = 0
Orders == {ix \in UNION {[1..n -> 1..NC] : n \in 0..NC} : \A i \in 1..Len(ix) : i > 1 => ix[i - 1] < ix[i]}
Thr == Cardinality(Workers) - 1
Next == \/ rounds < 2 /\ CanFlush(b, NJ, NC, Thr, NB) /\ b' = AfterFlush(b, NJ, NC, Thr, NB) /\ cnt' = [i \in 1..NJ |-> 0] /\ UNCHANGED rounds
        \/ \E w \in Workers :
             \/ CanWorkBegin(b, w) /\ b' = AfterWorkBegin(b, w) /\ UNCHANGED <<cnt, rounds>>
             \/ \E i \in 1..NJ : CanJobBegin(b, w, i) /\ b' = AfterJobBegin(b, w, i) /\ cnt' = [cnt EXCEPT ![i] = @ + 1] /\ UNCHANGED rounds
             \/ \E i \in 1..NJ : CanJobEnd(b, w, i) /\ b' = AfterJobEnd(b, w, i) /\ UNCHANGED <<cnt, rounds>>
             \/ \E k \in 0..NB - 1 : CanBand(b, w, k) /\ b' = AfterBand(b, w, k) /\ UNCHANGED <<cnt, rounds>>
             \/ \E k \in 0..NB - 1, ix \in Orders : CanCommands(b, w, k, ix) /\ b' = AfterCommands(b, w, k) /\ UNCHANGED <<cnt, rounds>>
             \/ CanWorkEnd(b, w) /\ b' = AfterWorkEnd(b, w) /\ UNCHANGED <<cnt, rounds>>
        \/ CanReturn(b) /\ b' = AfterReturn(b) /\ rounds' = rounds + 1 /\ UNCHANGED cnt
Fin == rounds = 2 /\ UNCHANGED <<b, cnt, rounds>>
Spec == Init /\ [][Next \/ Fin]_<<b, cnt, rounds>>
ExactlyOnce == \A i \in 1..NJ : cnt[i] <= 1 /\ (b.closed # {} => cnt[i] = 1)
Bands == \A o, p \in b.owner : o[1] = p[1] => o = p
NoWorkOutside == b.ph = "idle" => b.act = {} /\ b.begun = {}
=============================================================================
