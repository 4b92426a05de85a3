-------------------------------- MODULE MatrixTrace ---------------------------------
(* Objects 1 matrix, 2 gradient, 3 pattern, 4 the user part of a context; meta is the other part (property C12). *)
EXTENDS Matrix, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ms, meta, t, l
vars == <<ms, meta>>
tvars == <<ms, meta, t, l>>
Ev == Traces[t].ev
e == Ev[l]
TraceInit == ms = [k \in 1..4 |-> Id] /\ meta = Id /\ t \in 1..Len(Traces) /\ l = 1
Set(k, m) == ms' = [ms EXCEPT ![k] = m] /\ UNCHANGED meta
Keep == UNCHANGED vars
X == ms[e.s]
Observed == /\ e.bad = 0 /\ \A k \in 1..4 : e.st[k] = ms'[k] /\ (e.tt[k] # -1 => e.tt[k] \in Types(ms'[k]))
            /\ e.st[5] = meta' /\ e.st[6] = Mul(ms'[4], meta')
Abs(x) == IF x < 0 THEN -x ELSE x
D2(m) == m[1] * m[4] - m[2] * m[3]                  \* units of 1/U^2
Close(x, d, y) == 2 * Abs(x * d - y) <= Abs(d) + 2     \* x is y/d rounded
InverseOK(m, r) ==
  LET d == D2(m) IN
  /\ Close(r[1], d, U * U * m[4]) /\ Close(r[2], d, -(U * U * m[2])) /\ Close(r[3], d, -(U * U * m[3])) /\ Close(r[4], d, U * U * m[1])
  /\ Close(r[5], d, -U * (m[5] * m[4] - m[6] * m[3])) /\ Close(r[6], d, -U * (m[6] * m[1] - m[5] * m[2]))
Step ==
  CASE e.op = "apply" -> e.ok /\ Set(e.s, Apply(X, e.k, e.d, e.m))
    [] e.op = "badop" -> ~e.ok /\ Keep
    [] e.op = "set" -> e.ok /\ Set(1, CASE e.k = 0 -> Id [] e.k = 2 -> Trans(e.d[1], e.d[2]) [] e.k = 3 -> Scale(e.d[1], e.d[2]) [] e.k = 4 -> Skew(e.d[1], e.d[2])
                                        [] OTHER -> Mul(Rot(e.d[1]), Trans(e.d[2], e.d[3])))
    [] e.op = "usermeta" -> e.ok /\ ms' = [ms EXCEPT ![4] = Id] /\ meta' = Mul(ms[4], meta)
    [] e.op = "ctxreset" -> ms' = [ms EXCEPT ![4] = Id] /\ meta' = Id
    [] e.op = "invert" -> Keep /\ IF D2(X) = 0 THEN (~e.exact \/ (~e.ok /\ e.kept)) ELSE e.ok /\ InverseOK(X, e.r)
    [] e.op = "map" -> Keep /\ e.ok /\ e.rest /\ Len(e.out) = Len(e.in) /\ \A i \in 1..Len(e.in) : e.out[i] = MapPoint(X, e.in[i])
    [] e.op = "mapv" -> Keep /\ e.v = MapVec(X, e.p) /\ e.w = MapPoint(X, e.p)
TraceNext == \/ /\ l <= Len(Ev) /\ Step /\ Observed
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
=====================================================================================
