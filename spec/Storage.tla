------------------------------- MODULE Storage -------------------------------
(* Implementation-shaped model of how value objects hold their content: inline in the handle, in a reference       *)
(* counted block, or in caller-provided external memory (read-only or writable) with a destroy callback.            *)
(* TLC checks that it refines ArraySpec (no operation on one handle changes another handle's value) and the         *)
(* lifetime invariants (properties C01, C03, C10).                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Blocks, Vals, InlineCap, MaxLen, Exts

Free == [mode |-> "free", rc |-> 0, data |-> <<>>, cap |-> 0, ext |-> 0]
VARIABLES hnd,      \* hnd[s] = [blk |-> b or 0, data |-> inline content (when blk = 0)]
          blk,      \* blk[b]  = storage block
          mem,      \* mem[x]  = content of the external buffer x (the caller's memory)
          released, \* released[x] = how many times the destroy callback of x ran
          used      \* external buffers handed to the library so far
vars == <<hnd, blk, mem, released, used>>

Content(s) == IF hnd[s].blk = 0 THEN hnd[s].data ELSE blk[hnd[s].blk].data
items == [s \in Slots |-> Content(s)]

Seqs(n) == UNION {[1..k -> Vals] : k \in 0..n}
FreeBlk == {b \in Blocks : blk[b].mode = "free"}
Mutable(s) == LET b == hnd[s].blk IN b = 0 \/ (blk[b].rc = 1 /\ blk[b].mode # "extro")

Init == /\ hnd = [s \in Slots |-> [blk |-> 0, data |-> <<>>]]
        /\ blk = [b \in Blocks |-> Free]
        /\ mem = [x \in Exts |-> <<>>] /\ released = [x \in Exts |-> 0] /\ used = {}

\* Dropping the reference of handle s to its block (as part of another step).
DropIn(B, s) == LET b == hnd[s].blk IN IF b = 0 THEN B
                ELSE IF B[b].rc = 1 THEN [B EXCEPT ![b] = Free] ELSE [B EXCEPT ![b].rc = @ - 1]
RelAfter(s) == LET b == hnd[s].blk IN
               IF b # 0 /\ blk[b].rc = 1 /\ blk[b].ext # 0 THEN [released EXCEPT ![blk[b].ext] = @ + 1] ELSE released

\* Give handle s the new content d: in place when allowed, otherwise in new storage.
Store(s, d) ==
  /\ Len(d) <= MaxLen
  /\ \/ /\ hnd[s].blk = 0 /\ Len(d) <= InlineCap                                     \* inline, in place
        /\ hnd' = [hnd EXCEPT ![s].data = d] /\ UNCHANGED <<blk, mem, released, used>>
     \/ /\ hnd[s].blk # 0 /\ Mutable(s) /\ Len(d) <= blk[hnd[s].blk].cap              \* block, in place
        /\ blk' = [blk EXCEPT ![hnd[s].blk].data = d]
        /\ mem' = IF blk[hnd[s].blk].ext # 0 THEN [mem EXCEPT ![blk[hnd[s].blk].ext] = d] ELSE mem
        /\ UNCHANGED <<hnd, released, used>>
     \/ /\ ~(hnd[s].blk = 0 /\ Len(d) <= InlineCap)
        /\ ~(hnd[s].blk # 0 /\ Mutable(s) /\ Len(d) <= blk[hnd[s].blk].cap)            \* new storage
        /\ IF Len(d) <= InlineCap
           THEN /\ hnd' = [hnd EXCEPT ![s] = [blk |-> 0, data |-> d]]
                /\ blk' = DropIn(blk, s)
           ELSE \E b \in FreeBlk : \E c \in Len(d)..MaxLen :
                /\ hnd' = [hnd EXCEPT ![s] = [blk |-> b, data |-> <<>>]]
                /\ blk' = [DropIn(blk, s) EXCEPT ![b] = [mode |-> "heap", rc |-> 1, data |-> d, cap |-> c, ext |-> 0]]
        /\ released' = RelAfter(s) /\ UNCHANGED <<mem, used>>

Assign(s)  == \E d \in Seqs(MaxLen) : Store(s, d)
AppendV(s) == \E v \in Vals : Store(s, Append(Content(s), v))
AppendSelf(s) == Store(s, Content(s) \o Content(s))
Chop(s)    == Content(s) # <<>> /\ Store(s, Tail(Content(s)))
Put(s)     == \E i \in 1..Len(Content(s)), v \in Vals : Store(s, [Content(s) EXCEPT ![i] = v])
Copy(s, o) == LET b == hnd[o].blk IN
  /\ s # o
  /\ hnd' = [hnd EXCEPT ![s] = hnd[o]]
  /\ LET kept == IF b = 0 THEN blk ELSE [blk EXCEPT ![b].rc = @ + 1] IN       \* retain before release
     blk' = LET p == hnd[s].blk IN IF p = 0 THEN kept ELSE IF kept[p].rc = 1 THEN [kept EXCEPT ![p] = Free] ELSE [kept EXCEPT ![p].rc = @ - 1]
  /\ released' = LET p == hnd[s].blk IN IF p # 0 /\ p # b /\ blk[p].rc = 1 /\ blk[p].ext # 0 THEN [released EXCEPT ![blk[p].ext] = @ + 1] ELSE released
  /\ UNCHANGED <<mem, used>>
Move(s, o) ==
  /\ s # o
  /\ hnd' = [hnd EXCEPT ![s] = hnd[o], ![o] = [blk |-> 0, data |-> <<>>]]
  /\ blk' = DropIn(blk, s) /\ released' = RelAfter(s) /\ UNCHANGED <<mem, used>>
Reset(s) == /\ hnd' = [hnd EXCEPT ![s] = [blk |-> 0, data |-> <<>>]]
            /\ blk' = DropIn(blk, s) /\ released' = RelAfter(s) /\ UNCHANGED <<mem, used>>
External(s) == \E x \in Exts \ used, b \in FreeBlk, d \in Seqs(MaxLen), m \in {"extro", "extrw"} : \E c \in (IF d = <<>> THEN 1 ELSE Len(d))..MaxLen :
  /\ hnd' = [hnd EXCEPT ![s] = [blk |-> b, data |-> <<>>]]
  /\ blk' = [DropIn(blk, s) EXCEPT ![b] = [mode |-> m, rc |-> 1, data |-> d, cap |-> c, ext |-> x]]
  /\ mem' = [mem EXCEPT ![x] = d] /\ used' = used \cup {x} /\ released' = RelAfter(s)

Next == \E s \in Slots : \/ Assign(s) \/ AppendV(s) \/ AppendSelf(s) \/ Chop(s) \/ Put(s) \/ Reset(s) \/ External(s)
                         \/ \E o \in Slots : Copy(s, o) \/ Move(s, o)
Spec == Init /\ [][Next]_vars

Users(b) == {s \in Slots : hnd[s].blk = b}
RefCounts == \A b \in Blocks : blk[b].rc = Cardinality(Users(b)) /\ (blk[b].mode = "free" <=> blk[b].rc = 0)
Capacity  == \A b \in Blocks : Len(blk[b].data) <= blk[b].cap
ReleasedOnce == \A x \in Exts : released[x] = IF x \in used /\ ~\E b \in Blocks : blk[b].ext = x THEN 1 ELSE 0
\* One step changes the observable value of at most the slot it operates on (and the one it moves from).
Isolation == [][Cardinality({s \in Slots : Content(s)' # Content(s)}) <= 2 /\
                \A s, o \in Slots : (s # o /\ Content(s)' # Content(s) /\ Content(o)' # Content(o)) =>
                     (Content(s)' = Content(o) /\ Content(o)' = <<>>) \/ (Content(o)' = Content(s) /\ Content(s)' = <<>>)]_vars
ReadOnly == [][\A b \in Blocks : blk[b].mode = "extro" /\ blk'[b].ext = blk[b].ext => mem'[blk[b].ext] = mem[blk[b].ext]]_vars
\* Refinement: every step is a step of the abstract arrays.
AbsStep == \/ UNCHANGED items
           \/ \E s \in Slots : \E d \in Seqs(2 * MaxLen) : items' = [items EXCEPT ![s] = d]
           \/ \E s, o \in Slots : s # o /\ items' = [items EXCEPT ![s] = items[o], ![o] = <<>>]
Refines == [][AbsStep]_vars
=============================================================================
