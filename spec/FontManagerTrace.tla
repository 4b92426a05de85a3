------------------------------ MODULE FontManagerTrace ------------------------------
EXTENDS FontManager, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES hs, cont, t, l      \* hs[s]: the manager handle s refers to (0: none), cont[m]: its faces
tvars == <<hs, cont, t, l>>
Ev == Traces[t].ev
e == Ev[l]
F == Ev[1].faces
Slots == 1..3
ToSet(q) == {q[i] : i \in 1..Len(q)}
Of(m) == IF m = 0 THEN {} ELSE cont[m]
Mine == Of(hs[e.s])
New == Len(cont) + 1
Keep == UNCHANGED <<hs, cont>>
Update(set) == IF hs[e.s] = 0 THEN hs' = [hs EXCEPT ![e.s] = New] /\ cont' = Append(cont, set)
               ELSE cont' = [cont EXCEPT ![hs[e.s]] = set] /\ UNCHANGED hs
Added == ToSet(e.adds)
ParOk(h) == /\ Mine \subseteq h /\ h \subseteq Mine \cup Added
            /\ \A f \in Added : \E g \in h : Key(F[g]) = Key(F[f])
            /\ \A f, g \in h : Key(F[f]) = Key(F[g]) => f = g
\* A query during the additions saw some of them.
SawOk(x, h) == IF ~ValidQuery(x.q) THEN x.r = -2
               ELSE IF x.r = 0 THEN Matching(F, Mine, x.q.name) = {}
               ELSE x.r \in h /\ x.r \in Best(F, Mine \cup {x.r}, x.q)
Do == CASE e.op = "create" -> e.ok /\ hs' = [hs EXCEPT ![e.s] = New] /\ cont' = Append(cont, {})
        [] e.op = "reset" -> e.ok /\ hs' = [hs EXCEPT ![e.s] = 0] /\ UNCHANGED cont
        [] e.op = "copy" -> e.ok /\ hs' = [hs EXCEPT ![e.s] = hs[e.o]] /\ UNCHANGED cont
        [] e.op = "move" -> e.ok /\ hs' = (IF e.s = e.o THEN hs ELSE [hs EXCEPT ![e.s] = hs[e.o], ![e.o] = 0]) /\ UNCHANGED cont
        [] e.op = "add" -> e.ok /\ Update(Add(F, Mine, e.f))
        [] e.op = "addnone" -> ~e.ok /\ Keep
        [] e.op = "query" -> /\ Keep
                             /\ IF ~ValidQuery(e.q) THEN e.inv /\ e.got = e.was
                                ELSE LET b == Best(F, Mine, e.q) IN IF b = {} THEN e.nomatch /\ e.got = 0 ELSE e.ok /\ e.got \in b
        [] e.op = "faces" -> /\ Keep
                             /\ IF Matching(F, Mine, e.name) = {} THEN e.nomatch /\ e.got = <<>>
                                ELSE e.ok /\ Cardinality(ToSet(e.got)) = Len(e.got) /\ FacesOf(F, Mine, e.name, ToSet(e.got))
        [] e.op = "par" -> LET h == ToSet(e.st[e.s].held) IN
                           /\ e.allok /\ ParOk(h) /\ (\A i \in 1..Len(e.qs) : SawOk(e.qs[i], h))
                           /\ UNCHANGED hs /\ cont' = [cont EXCEPT ![hs[e.s]] = h]
        [] OTHER -> FALSE
Refused == Keep \/ (e.op = "add" /\ hs[e.s] = 0 /\ hs' = [hs EXCEPT ![e.s] = New] /\ cont' = Append(cont, {}))
OfNew(m) == IF m = 0 THEN {} ELSE cont'[m]
Step == /\ IF e.ff /\ e.oom THEN Refused ELSE Do
        /\ \A k \in Slots : LET c == OfNew(hs'[k])  s == e.st[k] IN
             /\ s.valid = (hs'[k] # 0) /\ ToSet(s.held) = c /\ s.n = Cardinality(c) /\ s.fams = Cardinality(Families(F, c))
             /\ ToSet(s.eq) = {q \in Slots : hs'[q] = hs'[k]}
        /\ e.bad = 0
TraceInit == hs = [k \in Slots |-> 0] /\ cont = <<>> /\ t \in 1..Len(Traces) /\ l = 1
TraceNext == \/ /\ l <= Len(Ev)
                /\ (IF e.op = "init" THEN (\A i \in 1..Len(F) : F[i].seen) /\ Keep
                    ELSE IF e.op = "end" THEN e.live = 0 /\ e.bad = 0 /\ Keep ELSE Step)
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
=====================================================================================
