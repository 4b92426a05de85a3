------------------------------ MODULE FontTablesTrace -------------------------------
EXTENDS FontTables, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES at, ks, t, l      \* at: the subtable of the character map in use, ks: the kerning subtables in use
tvars == <<at, ks, t, l>>
Ev == Traces[t].ev
e == Ev[l]
F == Ev[1]
Exact == F.strict /\ at # -2
NoMapping == e.rc # 0
Undef == {i \in 1..Len(e.gl) : e.gl[i] = 0}
MapOk == IF Len(e.text) = 0 THEN e.rc = 0 /\ e.gl = <<>>
         ELSE IF Exact /\ at = -1 THEN NoMapping /\ e.gl = e.text
         ELSE IF e.rc # 0 THEN ~Exact /\ e.gl = e.text
         ELSE /\ Len(e.gl) = Len(e.text) /\ e.gl = e.alone /\ e.n = Len(e.text)
              /\ e.cl = [i \in 1..Len(e.text) |-> i - 1]
              /\ e.undef = Cardinality(Undef) /\ e.first = (IF Undef = {} THEN -1 ELSE (CHOOSE i \in Undef : \A k \in Undef : i <= k) - 1)
              /\ Exact => \A i \in 1..Len(e.text) : e.gl[i] = Map(F.cmap, at, e.text[i])
              /\ \A i \in 1..Len(e.gl) : e.gl[i] \in 0..65535
SetOf(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Sum(_, _)
Sum(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + Sum(q, i + 1)
Pos(ids, ps, i, k) == Adjust(F.gpos, ps, ids, i, k)
Adv(ids, ps, i) == e.base[i] + Pos(ids, ps, i, 2) + (IF e.kern /\ i < Len(ids) /\ ~OwnKern(F.gpos) THEN Kern(F.kern, ks, ids[i], ids[i + 1]) ELSE 0)
ShapeOk == LET ids == IF e.isids THEN e.ids ELSE e.gl IN
  IF (IF e.isids THEN e.ids ELSE e.text) = <<>> THEN e.rc = 0 /\ e.gl = <<>>
  ELSE IF ~e.isids /\ Exact /\ at = -1 THEN NoMapping
  ELSE IF e.rc # 0 THEN ~Exact \/ F.mmut
  ELSE /\ e.isids => e.gl = e.ids
       /\ (~e.isids /\ Exact /\ ~F.lmut) => e.gl = SubstAll(F.gsub, Lookups(F.gsub, SetOf(e.on)), [i \in 1..Len(e.text) |-> Map(F.cmap, at, e.text[i])])
       /\ e.arc = 0 /\ Len(e.base) = Len(ids)
       /\ (F.strict /\ ~F.mmut) => \A i \in 1..Len(ids) : e.base[i] = Advance(F.hmtx, F.longs, ids[i])
       /\ F.strict => Len(e.adv) = Len(ids)
       \* a legacy kern table moves every placement into the advance before it: with GPOS adjustments as well nothing is claimed
       /\ (F.strict /\ ~F.lmut) => LET ps == Lookups(F.gpos, SetOf(e.on)) IN (ps = {} \/ ~e.kern \/ Len(F.kern) = 0 \/ OwnKern(F.gpos)) =>
            /\ (~F.kmut \/ ~e.kern) => \A i \in 1..Len(ids) : e.adv[i] = Adv(ids, ps, i)
            /\ \A i \in 1..Len(ids) : e.px[i] = Pos(ids, ps, i, 0) /\ e.py[i] = Pos(ids, ps, i, 1) /\ e.ay[i] = Pos(ids, ps, i, 3)
       /\ (F.strict /\ e.mrc = 0) => e.madv = Sum(e.adv, 1)
MetricsOk == /\ (F.strict /\ ~F.mmut) => (e.rc = 0 /\ \A i \in 1..Len(e.ids) : e.adv[i] = Advance(F.hmtx, F.longs, e.ids[i]))
             /\ (F.strict /\ ~F.mmut) => /\ (e.brc = 0) = (\A i \in 1..Len(e.ids) : e.ids[i] < F.glyphs)
                                         /\ \A i \in 1..Len(e.ids) : e.ids[i] < F.glyphs => e.box[i] = Bounds(F.glyf, F.loca, e.ids[i])
CoverOk == IF Exact /\ at = -1 THEN e.rc # 0
           ELSE /\ Exact => e.rc = 0
                /\ Exact => \A i \in 1..Len(e.text) : (e.in[i] = 1) = Covers(F.cmap, at, e.text[i])
\* Every listed tag once, in order; asking for a tag agrees with the list (a font with a kern table also has the feature 'kern').
TagsOk == /\ e.rc = 0 /\ Ascending(e.feats) /\ Ascending(e.scripts)
          /\ \A i \in 1..Len(e.q) : (e.hasf[i] = 1) = (e.q[i] \in SetOf(e.feats)) /\ (e.hass[i] = 1) = (e.q[i] \in SetOf(e.scripts))
          /\ (F.strict /\ ~F.lmut) => LET fs == FeatureTags(F.gsub) \union FeatureTags(F.gpos) IN
               /\ SetOf(e.scripts) = ScriptTags(F.gsub) \union ScriptTags(F.gpos)
               /\ IF Len(F.kern) = 0 \/ OwnKern(F.gpos) THEN SetOf(e.feats) = fs ELSE SetOf(e.feats) \union {KernTag} = fs \union {KernTag} /\ fs \subseteq SetOf(e.feats)
Ok == CASE e.op = "tags" -> TagsOk [] e.op = "map" -> MapOk [] e.op = "shape" -> ShapeOk [] e.op = "metrics" -> MetricsOk [] e.op = "cover" -> CoverOk [] e.op = "end" -> e.same [] OTHER -> FALSE
TraceInit == at = -2 /\ ks = <<>> /\ t \in 1..Len(Traces) /\ l = 1
TraceNext == \/ /\ l <= Len(Ev)
                /\ (IF e.op = "init" THEN /\ (e.ok \/ ~e.strict \/ e.mmut)
                                          /\ at' = (IF e.strict THEN Chosen(e.cmap) ELSE -2)
                                          /\ ks' = (IF e.strict /\ ~e.kmut THEN KernTables(e.kern) ELSE <<>>)
                    ELSE Ok /\ UNCHANGED <<at, ks>>)
                /\ l' = l + 1 /\ t' = t
             \/ l > Len(Ev) /\ UNCHANGED tvars
=====================================================================================
