---------------------------------- MODULE RefCount ----------------------------------
(* Reference counting of an object shared by threads, over memory of the caller (property C10).  The count starts at Base:    *)
(* 1 for an object that may be written to, 3 for one that may not (so that "count = 1" means "sole owner and writable").      *)
(* A thread may only use handles it holds.  Retaining is one atomic increment, releasing one atomic decrement that returns    *)
(* the old value; whoever reads Base releases the memory in a later step.  Reuse is create_from_data() over an object that    *)
(* has a single owner: the old memory is released and the object starts over, possibly with the other Base.                  *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, MaxHandles, MaxBlocks, Start
VARIABLES rc, base, own, pc, blk, freed      \* blk: the block of memory in use; freed[b]: how often it was released
vars == <<rc, base, own, pc, blk, freed>>
Blocks == 1..MaxBlocks
RECURSIVE SumOf(_)
SumOf(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN own[x] + SumOf(T \ {x})
Handles == SumOf(Threads)
Init == /\ base \in {1, 3} /\ rc = base /\ blk = 1 /\ freed = [b \in Blocks |-> 0]
        /\ own = [x \in Threads |-> IF x = Start THEN 1 ELSE 0] /\ pc = [x \in Threads |-> "idle"]
Idle(x) == pc[x] = "idle" /\ own[x] > 0
Copy(x) == /\ Idle(x) /\ Handles < MaxHandles /\ rc' = rc + 1 /\ own' = [own EXCEPT ![x] = @ + 1] /\ UNCHANGED <<base, pc, blk, freed>>
Give(x, y) == /\ Idle(x) /\ x # y /\ own' = [own EXCEPT ![x] = @ - 1, ![y] = @ + 1] /\ UNCHANGED <<rc, base, pc, blk, freed>>
Release(x) == /\ Idle(x) /\ rc' = rc - 1 /\ own' = [own EXCEPT ![x] = @ - 1]
              /\ pc' = [pc EXCEPT ![x] = IF rc = base THEN "free" ELSE "idle"] /\ UNCHANGED <<base, blk, freed>>
Free(x) == /\ pc[x] = "free" /\ freed' = [freed EXCEPT ![blk] = @ + 1] /\ pc' = [pc EXCEPT ![x] = "idle"] /\ UNCHANGED <<rc, base, own, blk>>
\* Reading the count and acting on it are two steps.
Look(x) == /\ Idle(x) /\ pc' = [pc EXCEPT ![x] = IF rc = 1 THEN "write" ELSE "idle"] /\ UNCHANGED <<rc, base, own, blk, freed>>
Write(x) == /\ pc[x] = "write" /\ pc' = [pc EXCEPT ![x] = "idle"] /\ UNCHANGED <<rc, base, own, blk, freed>>
LookReuse(x) == /\ Idle(x) /\ blk < MaxBlocks /\ rc = base /\ pc' = [pc EXCEPT ![x] = "reuse"] /\ UNCHANGED <<rc, base, own, blk, freed>>
Reuse(x) == /\ pc[x] = "reuse" /\ freed' = [freed EXCEPT ![blk] = @ + 1] /\ blk' = blk + 1
            /\ (\E b \in {1, 3} : base' = b /\ rc' = b) /\ pc' = [pc EXCEPT ![x] = "idle"] /\ UNCHANGED own
Next == \E x \in Threads : Copy(x) \/ Release(x) \/ Free(x) \/ Look(x) \/ Write(x) \/ LookReuse(x) \/ Reuse(x) \/ (\E y \in Threads : Give(x, y))
Done == Handles = 0 /\ (\A x \in Threads : pc[x] = "idle") /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Done]_vars /\ \A x \in Threads : WF_vars(Free(x)) /\ WF_vars(Reuse(x)) /\ WF_vars(Write(x))
Count == rc = base - 1 + Handles
FreedOnce == \A b \in Blocks : freed[b] <= 1 /\ (freed[b] = 1 => b < blk \/ Handles = 0)
NotYet == Handles > 0 => freed[blk] = 0
Writer == \A x \in Threads : pc[x] \in {"write", "reuse"} => Handles = 1 /\ own[x] = 1 /\ (pc[x] = "write" => base = 1)
AllFreed == (Handles = 0 /\ \A x \in Threads : pc[x] = "idle") => \A b \in 1..blk : freed[b] = 1
Eventually == (Handles = 0) ~> (freed[blk] = 1)
=====================================================================================
