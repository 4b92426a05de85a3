----------------------------- MODULE RenderSync -----------------------------
(* The synchronisation protocol of asynchronous rendering, step by step: the user thread (process 0) fills a batch,
   hands it to W worker threads through their work slots, works as a worker itself, and waits for the workers.
   Every step is one access to shared memory. Portable = FALSE: futexes; TRUE: mutexes and condition variables.
   `b` is the state of RenderBatch and `ok` says that each step was one RenderBatch allows: checking it shows that the
   protocol implements RenderBatch. LateLock = TRUE is the portable protocol as it was before it was repaired (the last
   worker decrements the counter before it takes the mutex), for which TLC must find a violation. *)
EXTENDS RenderBatch, TLC
CONSTANTS W, J, B, K, Portable, LateLock
VARIABLES pc, flags, slot, saved, jobsRunning, thrRunning, waiting, fJobs, fBands, nextJob, job, band, at,
          mtx, tm, woken, batch, b, ok
vars == <<pc, flags, slot, saved, jobsRunning, thrRunning, waiting, fJobs, fBands, nextJob, job, band, at, mtx, tm, woken, batch, b, ok>>
Ws == 1..W
P == 0..W
None == -1
BN(x) == ToString(x)
Init == /\ pc = [p \in P |-> IF p = 0 THEN "idle" ELSE IF Portable THEN "t1" ELSE "w1"]
        /\ flags = [w \in Ws |-> {}] /\ slot = [w \in Ws |-> 0] /\ saved = [w \in Ws |-> {}]
        /\ jobsRunning = 0 /\ thrRunning = 0 /\ waiting = FALSE /\ fJobs = 0 /\ fBands = 0
        /\ nextJob = 0 /\ job = [p \in P |-> 0] /\ band = [p \in P |-> 0] /\ at = 1
        /\ mtx = None /\ tm = [w \in Ws |-> None] /\ woken = [p \in P |-> FALSE] /\ batch = 0
        /\ b = Idle /\ ok = TRUE
Go(p, x) == pc' = [pc EXCEPT ![p] = x]
Keep(S) == UNCHANGED S
Abs == <<b, ok>>
Thread == <<flags, slot, saved, tm>>
Sync == <<jobsRunning, thrRunning, waiting, fJobs, fBands, mtx>>
Work == <<nextJob, job, band>>
Touch(p) == ok' = (ok /\ (p # 0 => CanTouch(b)))
----
\* The user thread: fill a batch, hand it to the workers.
Fill == pc[0] = "idle" /\ batch < K /\ batch' = batch + 1 /\ nextJob' = 0
        /\ ok' = (ok /\ CanFlush(b, J, 1, W, B)) /\ b' = AfterFlush(b, J, 1, W, B) /\ Go(0, "s1")
        /\ UNCHANGED <<Thread, Sync, job, band, at, woken>>
S1 == pc[0] = "s1" /\ jobsRunning' = (IF J > 0 THEN W + 1 ELSE 0) /\ Go(0, "s2") /\ UNCHANGED <<Thread, thrRunning, waiting, fJobs, fBands, mtx, Work, at, woken, batch, Abs>>
S2 == pc[0] = "s2" /\ thrRunning' = W /\ Go(0, "s3") /\ UNCHANGED <<Thread, jobsRunning, waiting, fJobs, fBands, mtx, Work, at, woken, batch, Abs>>
S3 == pc[0] = "s3" /\ fJobs' = 0 /\ at' = 1 /\ Go(0, IF Portable THEN "p1" ELSE "r1") /\ UNCHANGED <<Thread, jobsRunning, thrRunning, waiting, fBands, mtx, Work, woken, batch, Abs>>
After == IF at = W THEN "wb" ELSE IF Portable THEN "p1" ELSE "r1"
R1 == pc[0] = "r1" /\ flags' = [flags EXCEPT ![at] = @ \cup {"NG"}] /\ ok' = (ok /\ flags[at] \cap {"NG", "ED", "Q"} = {})
      /\ Go(0, "r2") /\ UNCHANGED <<slot, saved, tm, Sync, Work, at, woken, batch, b>>
R2 == pc[0] = "r2" /\ slot' = [slot EXCEPT ![at] = batch] /\ Go(0, "r3") /\ UNCHANGED <<flags, saved, tm, Sync, Work, at, woken, batch, Abs>>
R3 == pc[0] = "r3" /\ flags' = [flags EXCEPT ![at] = @ \cup {"ED"}]
      /\ (IF "S" \in flags[at] THEN Go(0, "r4") /\ at' = at ELSE Go(0, After) /\ at' = at + 1)
      /\ UNCHANGED <<slot, saved, tm, Sync, Work, woken, batch, Abs>>
R4 == pc[0] = "r4" /\ woken' = [woken EXCEPT ![at] = @ \/ pc[at] = "w6"] /\ Go(0, After) /\ at' = at + 1
      /\ UNCHANGED <<Thread, Sync, Work, batch, Abs>>
P1 == pc[0] = "p1" /\ tm[at] = None /\ tm' = [tm EXCEPT ![at] = 0] /\ Go(0, "p2") /\ UNCHANGED <<flags, slot, saved, Sync, Work, at, woken, batch, Abs>>
P2 == pc[0] = "p2" /\ ok' = (ok /\ flags[at] \cap {"ED", "Q"} = {})
      /\ flags' = [flags EXCEPT ![at] = @ \cup {"ED"}] /\ slot' = [slot EXCEPT ![at] = batch]
      /\ woken' = [woken EXCEPT ![at] = @ \/ ("S" \in flags[at] /\ pc[at] = "t3")]
      /\ tm' = [tm EXCEPT ![at] = None] /\ Go(0, After) /\ at' = at + 1
      /\ UNCHANGED <<saved, Sync, Work, batch, b>>
----
\* Executed by every worker, the user thread included.
WB(p) == pc[p] = "wb" /\ ok' = (ok /\ CanWorkBegin(b, p)) /\ b' = AfterWorkBegin(b, p) /\ band' = [band EXCEPT ![p] = p]
         /\ Go(p, IF J > 0 THEN "j1" ELSE "b1") /\ UNCHANGED <<Thread, Sync, nextJob, job, at, woken, batch>>
J1(p) == pc[p] = "j1" /\ nextJob' = nextJob + 1 /\ job' = [job EXCEPT ![p] = nextJob + 1]
         /\ Go(p, IF nextJob < J THEN "j2" ELSE IF Portable THEN "q1" ELSE "f1") /\ UNCHANGED <<Thread, Sync, band, at, woken, batch, Abs>>
J2(p) == pc[p] = "j2" /\ ok' = (ok /\ CanJobBegin(b, p, job[p])) /\ b' = AfterJobBegin(b, p, job[p]) /\ Go(p, "j3")
         /\ UNCHANGED <<Thread, Sync, Work, at, woken, batch>>
J3(p) == pc[p] = "j3" /\ ok' = (ok /\ CanJobEnd(b, p, job[p])) /\ b' = AfterJobEnd(b, p, job[p]) /\ Go(p, "j1")
         /\ UNCHANGED <<Thread, Sync, Work, at, woken, batch>>
\* Barrier with futexes.
F1(p) == pc[p] = "f1" /\ Touch(p) /\ jobsRunning' = jobsRunning - 1 /\ Go(p, IF jobsRunning = 1 THEN "f2" ELSE "f4")
         /\ UNCHANGED <<Thread, thrRunning, waiting, fJobs, fBands, mtx, Work, at, woken, batch, b>>
F2(p) == pc[p] = "f2" /\ Touch(p) /\ fJobs' = fJobs + 1 /\ Go(p, "f3") /\ UNCHANGED <<Thread, jobsRunning, thrRunning, waiting, fBands, mtx, Work, at, woken, batch, b>>
F3(p) == pc[p] = "f3" /\ woken' = [x \in P |-> woken[x] \/ pc[x] = "f5"] /\ Go(p, "b1") /\ UNCHANGED <<Thread, Sync, Work, at, batch, Abs>>
F4(p) == pc[p] = "f4" /\ Touch(p) /\ Go(p, IF fJobs = 0 THEN "f5" ELSE "f6") /\ UNCHANGED <<Thread, Sync, Work, at, woken, batch, b>>
F5(p) == pc[p] = "f5" /\ woken[p] /\ woken' = [woken EXCEPT ![p] = FALSE] /\ Go(p, "f6") /\ UNCHANGED <<Thread, Sync, Work, at, batch, Abs>>
F6(p) == pc[p] = "f6" /\ Touch(p) /\ Go(p, IF fJobs # 1 THEN "f4" ELSE "b1") /\ UNCHANGED <<Thread, Sync, Work, at, woken, batch, b>>
\* Barrier with a mutex and a condition variable.
Q1(p) == pc[p] = "q1" /\ mtx = None /\ mtx' = p /\ Touch(p) /\ Go(p, "q2") /\ UNCHANGED <<Thread, jobsRunning, thrRunning, waiting, fJobs, fBands, Work, at, woken, batch, b>>
Q2(p) == pc[p] = "q2" /\ jobsRunning' = jobsRunning - 1 /\ mtx' = None /\ Go(p, IF jobsRunning = 1 THEN "q3" ELSE "q4")
         /\ UNCHANGED <<Thread, thrRunning, waiting, fJobs, fBands, Work, at, woken, batch, Abs>>
Q3(p) == pc[p] = "q3" /\ Touch(p) /\ woken' = [x \in P |-> woken[x] \/ pc[x] = "q4"] /\ Go(p, "b1") /\ UNCHANGED <<Thread, Sync, Work, at, batch, b>>
Q4(p) == pc[p] = "q4" /\ woken[p] /\ mtx = None /\ Touch(p) /\ woken' = [woken EXCEPT ![p] = FALSE] /\ Go(p, IF jobsRunning > 0 THEN "q4" ELSE "b1")
         /\ UNCHANGED <<Thread, Sync, Work, at, batch, b>>
\* Bands.
B1(p) == pc[p] = "b1" /\ (IF band[p] < B
                         THEN ok' = (ok /\ CanBand(b, p, band[p])) /\ b' = AfterBand(b, p, band[p]) /\ Go(p, "b2")
                         ELSE ok' = (ok /\ CanWorkEnd(b, p)) /\ b' = AfterWorkEnd(b, p) /\ Go(p, IF p = 0 THEN IF W = 0 THEN "ret" ELSE IF Portable THEN "y1" ELSE "x1" ELSE IF Portable THEN IF LateLock THEN "l1" ELSE "z1" ELSE "d1"))
         /\ UNCHANGED <<Thread, Sync, Work, at, woken, batch>>
B2(p) == pc[p] = "b2" /\ ok' = (ok /\ CanCommands(b, p, band[p], <<1>>)) /\ b' = AfterCommands(b, p, band[p])
         /\ band' = [band EXCEPT ![p] = @ + W + 1] /\ Go(p, "b1") /\ UNCHANGED <<Thread, Sync, nextJob, job, at, woken, batch>>
----
\* End of a worker's part, futexes.
D1(p) == pc[p] = "d1" /\ Touch(p) /\ thrRunning' = thrRunning - 1 /\ Go(p, IF thrRunning = 1 THEN "d2" ELSE "w1")
         /\ UNCHANGED <<Thread, jobsRunning, waiting, fJobs, fBands, mtx, Work, at, woken, batch, b>>
D2(p) == pc[p] = "d2" /\ Touch(p) /\ fBands' = fBands + 1 /\ Go(p, "d3") /\ UNCHANGED <<Thread, jobsRunning, thrRunning, waiting, fJobs, mtx, Work, at, woken, batch, b>>
D3(p) == pc[p] = "d3" /\ woken' = [woken EXCEPT ![0] = @ \/ pc[0] = "x2"] /\ Go(p, "w1") /\ UNCHANGED <<Thread, Sync, Work, at, batch, Abs>>
\* ... and with a mutex.
Z1(p) == pc[p] = "z1" /\ mtx = None /\ Touch(p) /\ thrRunning' = thrRunning - 1
         /\ woken' = [woken EXCEPT ![0] = @ \/ (thrRunning = 1 /\ waiting /\ pc[0] = "y3")] /\ Go(p, "t1")
         /\ UNCHANGED <<Thread, jobsRunning, waiting, fJobs, fBands, mtx, Work, at, batch, b>>
L1(p) == pc[p] = "l1" /\ Touch(p) /\ thrRunning' = thrRunning - 1 /\ Go(p, IF thrRunning = 1 THEN "l2" ELSE "t1")
         /\ UNCHANGED <<Thread, jobsRunning, waiting, fJobs, fBands, mtx, Work, at, woken, batch, b>>
L2(p) == pc[p] = "l2" /\ mtx = None /\ Touch(p) /\ woken' = [woken EXCEPT ![0] = @ \/ (waiting /\ pc[0] = "y3")] /\ Go(p, "t1")
         /\ UNCHANGED <<Thread, Sync, Work, at, batch, b>>
\* The user thread waits for the workers.
X1 == pc[0] = "x1" /\ Go(0, IF fBands # 0 THEN "x3" ELSE "x2c") /\ UNCHANGED <<Thread, Sync, Work, at, woken, batch, Abs>>
X2c == pc[0] = "x2c" /\ Go(0, IF fBands = 0 THEN "x2" ELSE "x1") /\ UNCHANGED <<Thread, Sync, Work, at, woken, batch, Abs>>
X2 == pc[0] = "x2" /\ woken[0] /\ woken' = [woken EXCEPT ![0] = FALSE] /\ Go(0, "x1") /\ UNCHANGED <<Thread, Sync, Work, at, batch, Abs>>
X3 == pc[0] = "x3" /\ fBands' = 0 /\ Go(0, "ret") /\ UNCHANGED <<Thread, jobsRunning, thrRunning, waiting, fJobs, mtx, Work, at, woken, batch, Abs>>
Y1 == pc[0] = "y1" /\ mtx = None /\ mtx' = 0 /\ Go(0, "y2") /\ UNCHANGED <<Thread, jobsRunning, thrRunning, waiting, fJobs, fBands, Work, at, woken, batch, Abs>>
Y2 == pc[0] = "y2" /\ mtx' = None /\ (IF thrRunning > 0 THEN waiting' = TRUE /\ Go(0, "y3") ELSE waiting' = FALSE /\ Go(0, "ret"))
      /\ UNCHANGED <<Thread, jobsRunning, thrRunning, fJobs, fBands, Work, at, woken, batch, Abs>>
Y3 == pc[0] = "y3" /\ woken[0] /\ mtx = None /\ mtx' = 0 /\ woken' = [woken EXCEPT ![0] = FALSE] /\ Go(0, "y2") /\ UNCHANGED <<Thread, jobsRunning, thrRunning, waiting, fJobs, fBands, Work, at, batch, Abs>>
Ret == pc[0] = "ret" /\ ok' = (ok /\ CanReturn(b)) /\ b' = AfterReturn(b) /\ Go(0, "idle") /\ UNCHANGED <<Thread, Sync, Work, at, woken, batch>>
\* All batches done: the threads are told to quit.
U0 == pc[0] = "idle" /\ batch = K /\ at' = 1 /\ Go(0, IF W = 0 THEN "end" ELSE "u1") /\ UNCHANGED <<Thread, Sync, Work, woken, batch, Abs>>
U1 == pc[0] = "u1" /\ (Portable => tm[at] = None) /\ flags' = [flags EXCEPT ![at] = @ \cup {"Q"}]
      /\ (IF Portable THEN woken' = [woken EXCEPT ![at] = @ \/ ("S" \in flags[at] /\ pc[at] = "t3")] /\ at' = at + 1 /\ Go(0, IF at = W THEN "end" ELSE "u1")
         ELSE woken' = woken /\ IF "S" \in flags[at] THEN at' = at /\ Go(0, "u2") ELSE at' = at + 1 /\ Go(0, IF at = W THEN "end" ELSE "u1"))
      /\ UNCHANGED <<slot, saved, tm, Sync, Work, batch, Abs>>
U2 == pc[0] = "u2" /\ woken' = [woken EXCEPT ![at] = @ \/ pc[at] = "w6"] /\ at' = at + 1 /\ Go(0, IF at = W THEN "end" ELSE "u1") /\ UNCHANGED <<Thread, Sync, Work, batch, Abs>>
----
\* A worker thread's loop, futexes.
W1(p) == pc[p] = "w1" /\ flags' = [flags EXCEPT ![p] = @ \ {"S"}]
         /\ \/ "ED" \in flags[p] /\ Go(p, "w2")
            \/ "ED" \notin flags[p] /\ "Q" \in flags[p] /\ Go(p, "exit")
            \/ "ED" \notin flags[p] /\ "Q" \notin flags[p] /\ Go(p, "w4")
            \/ "ED" \notin flags[p] /\ "Q" \notin flags[p] /\ "NG" \in flags[p] /\ Go(p, "w1")
         /\ UNCHANGED <<slot, saved, tm, Sync, Work, at, woken, batch, Abs>>
W2(p) == pc[p] = "w2" /\ saved' = [saved EXCEPT ![p] = {BN(slot[p])}] /\ Go(p, "w3") /\ UNCHANGED <<flags, slot, tm, Sync, Work, at, woken, batch, Abs>>
W3(p) == pc[p] = "w3" /\ flags' = [flags EXCEPT ![p] = @ \ {"NG", "ED"}] /\ ok' = (ok /\ saved[p] = {BN(batch)}) /\ Go(p, "wb")
         /\ UNCHANGED <<slot, saved, tm, Sync, Work, at, woken, batch, b>>
W4(p) == pc[p] = "w4" /\ flags' = [flags EXCEPT ![p] = @ \cup {"S"}]
         /\ (IF flags[p] \cap {"ED", "Q"} # {} THEN Go(p, "w1") /\ saved' = saved ELSE Go(p, "w5") /\ saved' = [saved EXCEPT ![p] = flags[p] \cup {"S"}])
         /\ UNCHANGED <<slot, tm, Sync, Work, at, woken, batch, Abs>>
W5(p) == pc[p] = "w5" /\ Go(p, IF flags[p] = saved[p] THEN "w6" ELSE "w1") /\ UNCHANGED <<Thread, Sync, Work, at, woken, batch, Abs>>
W6(p) == pc[p] = "w6" /\ woken[p] /\ woken' = [woken EXCEPT ![p] = FALSE] /\ Go(p, "w1") /\ UNCHANGED <<Thread, Sync, Work, at, batch, Abs>>
\* ... and with a mutex.
T1(p) == pc[p] = "t1" /\ tm[p] = None /\ tm' = [tm EXCEPT ![p] = p] /\ Go(p, "t2") /\ UNCHANGED <<flags, slot, saved, Sync, Work, at, woken, batch, Abs>>
T2(p) == pc[p] = "t2" /\ tm' = [tm EXCEPT ![p] = None]
         /\ (IF flags[p] \cap {"Q", "ED"} = {}
            THEN flags' = [flags EXCEPT ![p] = @ \cup {"S"}] /\ Go(p, "t3") /\ saved' = saved
            ELSE /\ flags' = [flags EXCEPT ![p] = @ \ {"ED", "S"}] /\ saved' = [saved EXCEPT ![p] = {BN(slot[p])}]
                 /\ Go(p, IF "ED" \in flags[p] THEN "t4" ELSE "exit"))
         /\ UNCHANGED <<slot, Sync, Work, at, woken, batch, Abs>>
T3(p) == pc[p] = "t3" /\ woken[p] /\ tm[p] = None /\ tm' = [tm EXCEPT ![p] = p] /\ woken' = [woken EXCEPT ![p] = FALSE]
         /\ flags' = [flags EXCEPT ![p] = @ \ {"S"}] /\ Go(p, "t2") /\ UNCHANGED <<slot, saved, Sync, Work, at, batch, Abs>>
T4(p) == pc[p] = "t4" /\ ok' = (ok /\ saved[p] = {BN(batch)}) /\ Go(p, "wb") /\ UNCHANGED <<Thread, Sync, Work, at, woken, batch, b>>
----
Main == Fill \/ S1 \/ S2 \/ S3 \/ R1 \/ R2 \/ R3 \/ R4 \/ P1 \/ P2 \/ X1 \/ X2c \/ X2 \/ X3 \/ Y1 \/ Y2 \/ Y3 \/ Ret \/ U0 \/ U1 \/ U2
Common(p) == WB(p) \/ J1(p) \/ J2(p) \/ J3(p) \/ F1(p) \/ F2(p) \/ F3(p) \/ F4(p) \/ F5(p) \/ F6(p) \/ Q1(p) \/ Q2(p) \/ Q3(p) \/ Q4(p) \/ B1(p) \/ B2(p)
Worker(p) == Common(p) \/ D1(p) \/ D2(p) \/ D3(p) \/ Z1(p) \/ L1(p) \/ L2(p) \/ W1(p) \/ W2(p) \/ W3(p) \/ W4(p) \/ W5(p) \/ W6(p) \/ T1(p) \/ T2(p) \/ T3(p) \/ T4(p)
AllDone == pc[0] = "end" /\ \A w \in Ws : pc[w] = "exit"
\* A wait may return without a reason.
Spurious(p) == pc[p] \in {"f5", "q4", "x2", "y3", "w6", "t3"} /\ ~woken[p] /\ woken' = [woken EXCEPT ![p] = TRUE]
               /\ UNCHANGED <<pc, Thread, Sync, Work, at, batch, Abs>>
Next == Main \/ Common(0) \/ (\E w \in Ws : Worker(w)) \/ (AllDone /\ UNCHANGED vars)
NextS == Next \/ \E p \in P : Spurious(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Main \/ Common(0)) /\ \A w \in Ws : WF_vars(Worker(w))
SpecS == Init /\ [][NextS]_vars
Ok == ok
Finishes == <>AllDone
=============================================================================
