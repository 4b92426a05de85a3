----------------------------------- MODULE VarTrace -----------------------------------
(* Histories of variants (properties C09 and C03) checked against VarSpec. *)
EXTENDS VarSpec, FiniteSets, Json, IOUtils, TLC
CONSTANT Slots
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vs, t, l
tvars == <<vs, t, l>>
Ev == Traces[t].ev
e == Ev[l]
\* ------------------------------------------------------------------ transitions
FontT == 16   \* fonts compare by identity: two fonts of one size made separately may differ
TraceInit == vs = [k \in Slots |-> Null] /\ t \in 1..Len(Traces) /\ l = 1
X == vs[e.s]
Set(v) == vs' = [vs EXCEPT ![e.s] = v]
Keep == UNCHANGED vs
Conv(r) == Keep /\ <<e.out, e.rc>> = r
Clean(v) == IF v.t = 0 /\ v.c[4] < 0 THEN [v EXCEPT !.c[4] = 0] ELSE v   \* a colour variant cannot hold a negative alpha
Step ==
  CASE e.op = "assign" -> e.ok /\ Set(Clean(e.v))
    [] e.op = "mutate" -> e.ok /\ Set([X EXCEPT !.c = <<e.id>>])
    [] e.op = "copy" -> e.ok /\ Set(vs[e.o])
    [] e.op = "move" -> e.ok /\ vs' = IF e.s = e.o THEN vs ELSE [vs EXCEPT ![e.s] = vs[e.o], ![e.o] = DefaultOf(vs[e.o].t)]
    [] e.op = "inittype" -> IF e.valid THEN e.ok /\ Set(DefaultOf(e.ty)) ELSE ~e.ok /\ Set(Null)
    [] e.op = "default" -> e.ok /\ Set(DefaultOf(X.t))
    [] e.op = "type" -> Keep /\ e.ref
    [] e.op = "equals" -> LET Y == vs[e.o] IN /\ Keep /\ (IF X.t = FontT /\ X = Y THEN TRUE ELSE e.q = Eq(X, Y)) /\ (e.st1 => X = Y)
                                              /\ ((X.t = Y.t /\ X.t \in {0, 1, 2, 3} \cup BoolT..DoubleT) => e.st1 = (X = Y))
    [] e.op = "equalsv" -> Keep /\ e.q = EqV(X, e.v) /\ e.nul = (X.t = NullT)
    [] e.op = "tobool" -> Conv(ToBool(X))
    [] e.op = "toint32" -> Conv(ToInt(Int32, X))
    [] e.op = "toint64" -> Conv(ToInt(Int64, X))
    [] e.op = "touint32" -> Conv(ToInt(Uint32, X))
    [] e.op = "touint64" -> Conv(ToInt(Uint64, X))
    [] e.op = "todouble" -> Keep /\ ToDouble(X, e.out, e.rc)
    [] e.op = "torgba" -> Keep /\ e.rok = Colour(X) /\ (e.rok => ToRgba(X, e.out, e.out2))
    [] e.op = "torgba32" -> Keep /\ e.rok = Colour(X) /\ (e.rok => ToRgba32(X, e.out))
    [] e.op = "torgba64" -> Keep /\ e.rok = Colour(X) /\ (e.rok => ToRgba64(X, e.out))
\* A mutation that ran out of memory may have been done partly (the drivers' mutations take several calls) on the one object.
Refused == IF e.op = "mutate" THEN Set(e.st[e.s]) ELSE Keep
Observed == e.bad = 0 /\ \A k \in Slots : vs'[k] = e.st[k]
TraceNext == \/ /\ l <= Len(Ev)
                /\ IF e.op = "end" THEN e.live = 0 /\ e.bad = 0 /\ Keep ELSE (IF e.ff /\ e.oom THEN Refused ELSE Step) /\ Observed
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
=======================================================================================
