---------------------------------- MODULE ExtTrace ----------------------------------
(* Objects over memory of the caller (property C10).  Every slot reads as <<w, n, v>>: w is the block of the caller's        *)
(* memory its data is in (0: its own storage), n items all equal to v.  Slots 5 and 6 hold an object indirectly (a pattern   *)
(* of an image, a face or font of font data).  A block is released exactly when the last slot over it goes away.             *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES hs, blk, t, l       \* blk[b]: "none", or [rw, cb] of a block an object was successfully created over
tvars == <<hs, blk, t, l>>
Ev == Traces[t].ev
e == Ev[l]
Slots == 1..6
Blocks == 1..6
Empty == <<0, 0, 0>>
None == [made |-> FALSE, rw |-> FALSE, cb |-> FALSE]
X == hs[e.s]
Seen == e.st
Set(v) == hs' = [hs EXCEPT ![e.s] = v]
Keep == UNCHANGED hs
Shared(k) == \E o \in Slots \ {k} : hs[o][1] = hs[k][1]
\* Where the data may be after a mutation of slot e.s to n items equal to v.
Place(w2) == LET w == X[1]  changed == <<e.n, e.v>> # <<X[2], X[3]>>
                 fixed == w # 0 /\ (~blk[w].rw \/ Shared(e.s)) IN
             /\ w2 \in {0, w}
             /\ (fixed /\ changed => w2 = 0)
             /\ (e.must = "stay" /\ w # 0 /\ ~fixed => w2 = w)
             /\ (e.must = "own" => w2 = 0)
             /\ (e.must = "keep" => w2 = w)
Do == CASE e.op = "create" ->
             IF e.valid THEN e.ok /\ Set(<<e.b, e.n, e.v>>) /\ blk' = [blk EXCEPT ![e.b] = [made |-> TRUE, rw |-> e.rw, cb |-> e.cb]]
             ELSE ~e.ok /\ Keep /\ UNCHANGED blk
        [] e.op = "copy" -> e.ok /\ Set(hs[e.o]) /\ UNCHANGED blk
        [] e.op = "deep" -> /\ e.ok /\ UNCHANGED blk /\ Set(<<Seen[e.s][1], hs[e.o][2], hs[e.o][3]>>)
                             /\ (IF Seen[e.s][1] = 0 THEN TRUE ELSE Seen[e.s][1] = X[1] /\ (e.o = e.s \/ (blk[X[1]].rw /\ ~Shared(e.s))))
        [] e.op = "move" -> e.ok /\ hs' = (IF e.s = e.o THEN hs ELSE [hs EXCEPT ![e.s] = hs[e.o], ![e.o] = Empty]) /\ UNCHANGED blk
        [] e.op = "reset" -> e.ok /\ Set(Empty) /\ UNCHANGED blk
        [] e.op = "hold" -> (IF e.held THEN Set(hs[e.o]) ELSE Keep) /\ UNCHANGED blk
        [] e.op = "par" -> e.ok /\ (IF e.rel THEN Set(Empty) ELSE Keep) /\ UNCHANGED blk
        [] e.op = "mutate" -> e.ok /\ Place(Seen[e.s][1]) /\ Set(<<Seen[e.s][1], e.n, e.v>>) /\ UNCHANGED blk
        [] OTHER -> FALSE
\* Out of memory: nothing changed (a mutation by several calls may have moved the data to own storage).
Refused == UNCHANGED blk /\ IF e.op = "mutate" THEN Set(Seen[e.s]) /\ Seen[e.s][1] \in {0, X[1]} ELSE Keep
Released(b) == blk'[b].made /\ blk'[b].cb /\ ~\E k \in Slots : hs'[k][1] = b
Step == /\ IF e.ff /\ e.oom THEN Refused ELSE Do
        /\ \A k \in Slots : hs'[k] = Seen[k]
        /\ \A b \in Blocks : e.freed[b] = IF Released(b) THEN 1 ELSE 0
        /\ e.bad = 0
End == /\ UNCHANGED <<hs, blk>> /\ e.live = 0 /\ e.bad = 0
       /\ \A b \in Blocks : e.freed[b] = IF blk[b].made /\ blk[b].cb THEN 1 ELSE 0
TraceInit == hs = [k \in Slots |-> Empty] /\ blk = [b \in Blocks |-> None] /\ t \in 1..Len(Traces) /\ l = 1
TraceNext == \/ /\ l <= Len(Ev)
                /\ (IF e.op = "end" THEN End ELSE Step)
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
=======================================================================================
