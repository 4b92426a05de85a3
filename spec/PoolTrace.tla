------------------------------ MODULE PoolTrace ------------------------------
(* Thread pool and worker threads (C17). The model: a thread has at most one owner, who may give it work; work that was
   accepted runs exactly once, one piece at a time; a thread that has nothing to do accepts work. Threads without an
   owner are pooled or gone. Events are ordered as they happened; a call is two events (call and return), its effect
   lies anywhere between, which is why giving a thread up takes effect at the call and obtaining it at the return. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l,
  owner,      \* set of <<thread, user>>
  calls,      \* runs in progress: set of <<item, thread>>
  accepted,   \* items accepted, not started: set of <<item, thread>>
  running,    \* set of <<item, thread>>
  done,       \* finished items
  early,      \* items that started (or finished) before the call that submitted them returned
  inflight,   \* acquire calls in progress: user -> number of threads
  contended,  \* items submitted while the thread had or was getting other work
  quit,
  peak        \* the most threads that were taken at any time since the user's last acquire began
tvars == <<t, l, owner, calls, accepted, running, done, early, inflight, contended, quit, peak>>
Max == 64
Ev == Traces[t].ev
e == Ev[l]
Mode == Traces[t].ev[1].mode
Ids(s) == {s[i] : i \in 1..Len(s)}
Owned == {o[1] : o \in owner}
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ owner = {} /\ calls = {} /\ accepted = {} /\ running = {} /\ done = {} /\ early = {} /\ inflight = <<>> /\ contended = {} /\ quit = FALSE /\ peak = [u \in 1..8 |-> 0]
RECURSIVE SumF(_)
SumF(s) == IF s = <<>> THEN 0 ELSE Head(s)[2] + SumF(Tail(s))
Taken(ow, inf) == Cardinality({o[1] : o \in ow}) + SumF(inf)
Without(u) == SelectSeq(inflight, LAMBDA x : x[1] # u)
TraceNext ==
  \/ /\ l <= Len(Ev) /\ l' = l + 1 /\ t' = t
     /\ CASE e.op = "new" -> UNCHANGED <<owner, calls, accepted, running, done, early, inflight, contended, quit>>
          [] e.op = "acq" -> /\ inflight' = Append(inflight, <<e.u, e.n>>)
                             /\ UNCHANGED <<owner, calls, accepted, running, done, early, contended, quit>>
          [] e.op = "got" ->
               /\ Len(e.ids) = Cardinality(Ids(e.ids)) /\ Len(e.ids) <= e.n
               /\ \A x \in Ids(e.ids) : x > 0 /\ x \notin Owned /\ ~\E r \in accepted \cup running : r[2] = x
               /\ Cardinality(Owned) + Len(e.ids) <= Max
               /\ (e.all = 1 => Len(e.ids) \in {0, e.n})
               /\ (Len(e.ids) < e.n => e.why # 0 \/ e.all = 0)
               /\ (e.why = 2 => e.inj > 0)
               \* Nothing in the way: everything that was asked for is there.
               /\ (e.inj = 0 /\ peak[e.u] <= Max => Len(e.ids) = e.n /\ e.why = 0)
               /\ owner' = owner \cup {<<x, e.u>> : x \in Ids(e.ids)}
               /\ inflight' = Without(e.u)
               /\ UNCHANGED <<calls, accepted, running, done, early, contended, quit>>
          [] e.op = "rel" -> /\ \A x \in Ids(e.ids) : <<x, e.u>> \in owner
                             /\ owner' = {o \in owner : o[1] \notin Ids(e.ids)}
                             /\ inflight' = Append(inflight, <<e.u, Len(e.ids)>>)   \* still counted until the call returns
                             /\ UNCHANGED <<calls, accepted, running, done, early, contended, quit>>
          [] e.op = "reld" -> inflight' = Without(e.u) /\ UNCHANGED <<owner, calls, accepted, running, done, early, contended, quit>>
          [] e.op = "cln" -> UNCHANGED <<owner, calls, accepted, running, done, early, inflight, contended, quit>>
          [] e.op = "clnd" -> UNCHANGED <<owner, calls, accepted, running, done, early, inflight, contended, quit>>
          [] e.op = "run" -> /\ (Mode = "pool" => <<e.t, e.u>> \in owner)
                             /\ calls' = calls \cup {<<e.i, e.t>>}
                             /\ LET O == {c \in calls \cup accepted \cup running : c[2] = e.t} IN
                                contended' = IF O = {} THEN contended ELSE contended \cup {e.i} \cup {c[1] : c \in O}
                             /\ UNCHANGED <<owner, accepted, running, done, early, inflight, quit>>
          [] e.op = "ran" ->
               /\ <<e.i, e.t>> \in calls /\ e.rc \in {0, 1}
               /\ calls' = calls \ {<<e.i, e.t>>}
               /\ IF e.rc = 0
                  THEN accepted' = IF e.i \in early THEN accepted ELSE accepted \cup {<<e.i, e.t>>}
                  ELSE /\ e.i \notin early        \* refused work never runs
                       /\ e.i \in contended     \* refused only when there was other work
                       /\ UNCHANGED accepted
               /\ UNCHANGED <<owner, running, done, early, inflight, contended, quit>>
          [] e.op = "xb" ->
               /\ e.i \notin done /\ ~\E r \in running : r[1] = e.i \/ r[2] = e.t
               /\ <<e.i, e.t>> \in accepted \cup calls
               /\ early' = IF <<e.i, e.t>> \in calls THEN early \cup {e.i} ELSE early
               /\ accepted' = accepted \ {<<e.i, e.t>>}
               /\ running' = running \cup {<<e.i, e.t>>}
               /\ UNCHANGED <<owner, calls, done, inflight, contended, quit>>
          [] e.op = "xe" -> /\ <<e.i, e.t>> \in running
                            /\ running' = running \ {<<e.i, e.t>>} /\ done' = done \cup {e.i}
                            /\ UNCHANGED <<owner, calls, accepted, early, inflight, contended, quit>>
          [] e.op = "quiet" -> owner = {} /\ e.pooled \in 0..Max /\ UNCHANGED <<owner, calls, accepted, running, done, early, inflight, contended, quit>>
          [] e.op = "quit" -> quit' = TRUE /\ UNCHANGED <<owner, calls, accepted, running, done, early, inflight, contended>>
          [] e.op = "exit" -> quit /\ accepted = {} /\ running = {} /\ quit' = FALSE /\ UNCHANGED <<owner, calls, accepted, running, done, early, inflight, contended>>
          [] e.op = "gone" -> owner = {} /\ accepted = {} /\ running = {} /\ calls = {} /\ ~quit /\ UNCHANGED <<owner, calls, accepted, running, done, early, inflight, contended, quit>>
          [] OTHER -> FALSE
     /\ LET n == Taken(owner', inflight') IN
        peak' = [u \in 1..8 |-> IF (e.op = "acq" /\ u = e.u) \/ n > peak[u] THEN n ELSE peak[u]]
  \/ l > Len(Ev) /\ UNCHANGED tvars
=============================================================================
