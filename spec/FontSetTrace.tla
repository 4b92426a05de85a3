-------------------------------- MODULE FontSetTrace --------------------------------
(* Font feature / variation settings as a map from tags to values (property C08).  Tags are numbers ordered like the tags, *)
(* values are in quarters.  A state is the sequence of <<tag, value>> ordered by tag.                                     *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANT Slots
Traces == ndJsonDeserialize(IOEnv.TRACE)
None == -1000000
\* documented: these features are either on or off
OnOff == {"case", "clig", "cpct", "cpsp", "dlig", "dnom", "expt", "falt", "frac", "fwid", "halt", "hist", "hwid", "jalt", "kern", "liga",
          "lnum", "onum", "ordn", "palt", "pcap", "ruby", "smcp", "subs", "sups", "titl", "tnam", "tnum", "unic", "valt", "vkrn", "zero"}
VARIABLES fs, t, l
ValidSet(name, v) == name # "invalid" /\ v <= 4 * 65535 /\ (Traces[t].feat /\ name \in OnOff => v <= 4)
tvars == <<fs, t, l>>
Ev == Traces[t].ev
e == Ev[l]
TraceInit == fs = [k \in Slots |-> <<>>] /\ t \in 1..Len(Traces) /\ l = 1
Before(q, tag) == Cardinality({i \in 1..Len(q) : q[i][1] < tag})
Has(q, tag) == LET k == Before(q, tag) IN k < Len(q) /\ q[k + 1][1] = tag
Get(q, tag) == IF Has(q, tag) THEN q[Before(q, tag) + 1][2] ELSE None
Put(q, tag, v) == LET k == Before(q, tag) IN SubSeq(q, 1, k) \o <<<<tag, v>>>> \o SubSeq(q, k + (IF Has(q, tag) THEN 2 ELSE 1), Len(q))
Remove(q, tag) == LET k == Before(q, tag) IN IF Has(q, tag) THEN SubSeq(q, 1, k) \o SubSeq(q, k + 2, Len(q)) ELSE q
X == fs[e.s]
Set(x) == fs' = [fs EXCEPT ![e.s] = x]
Keep == UNCHANGED fs
Step ==
  CASE e.op = "clear" -> e.ok /\ Set(<<>>)
    [] e.op = "keep" -> e.ok /\ Keep
    [] e.op = "copy" -> e.ok /\ Set(fs[e.o])
    [] e.op = "move" -> e.ok /\ fs' = IF e.s = e.o THEN fs ELSE [fs EXCEPT ![e.s] = fs[e.o], ![e.o] = <<>>]
    [] e.op = "set" -> IF ValidSet(e.name, e.v) THEN e.ok /\ Set(Put(X, e.t, e.v)) ELSE ~e.ok /\ Keep
    [] e.op = "remove" -> e.ok /\ Set(Remove(X, e.t))
    [] e.op = "query" -> Keep /\ \A i \in 0..(Len(e.q) \div 3 - 1) : LET tag == e.q[3 * i + 1] IN
                           (e.q[3 * i + 2] = 1) = Has(X, tag) /\ e.q[3 * i + 3] = Get(X, tag)
    [] e.op = "rebuilt" -> Keep /\ (e.ff \/ (e.okset /\ e.q))
    [] e.op = "equals" -> Keep /\ e.q = (X = fs[e.o])
Observed == e.bad = 0 /\ \A k \in Slots : LET x == fs'[k] y == e.st[k] IN
  y.n = Len(x) /\ y.room /\ Len(y.view) = 2 * Len(x) /\ \A i \in 1..Len(x) : y.view[2 * i - 1] = x[i][1] /\ y.view[2 * i] = x[i][2]
\* Property C18: an operation that reports out of memory changed nothing.
Refused == Keep
TraceNext == \/ /\ l <= Len(Ev)
                /\ IF e.op = "end" THEN e.live = 0 /\ e.bad = 0 /\ Keep ELSE (IF e.ff /\ e.oom THEN Refused ELSE Step) /\ Observed
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
=====================================================================================
