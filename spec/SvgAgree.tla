------------------------------ MODULE SvgAgree ------------------------------
(* Agreement of an observed parse result with the state the specification     *)
(* reaches.  The result is the set of aspects that disagree.                  *)
EXTENDS SvgDoc

ColorAgree(c, o) == o = <<c[1], c[2], c[3], 255>>
StopAgree(s, o) == Near(s.off, o.off, 2) /\ Near(s.op, o.op, 2) /\ ColorAgree(s.c, o.c)
DirAgree(d, o, user) == Near(d, o, IF user \/ Abs(d) > 4 * S THEN 2 * (S \div U) ELSE 3)
GradAgree(g, o) ==
  /\ o.kind = g.kind /\ o.spread = g.spread /\ o.units = g.units
  /\ Len(o.dir) = Len(g.dir) /\ \A i \in 1..Len(g.dir) : DirAgree(g.dir[i], o.dir[i], g.units = 1)
  /\ Len(o.stops) = Len(g.stops) /\ \A i \in 1..Len(g.stops) : StopAgree(g.stops[i], o.stops[i])
  /\ MatrixNear(g.m, o.m)
PaintAgree(p, o) ==
  /\ p.t = o.t
  /\ p.t = "color" => ColorAgree(p.c, o.c)
  /\ p.t = "grad" => GradAgree(p.g, o)
StrokeAgree(s, o) ==
  /\ Near(s.lw, o.lw, 2) /\ s.nz = o.nz /\ Near(s.ml, o.ml, 1) /\ s.join = o.join
  /\ s.tcap = o.tcap /\ s.lcap = o.lcap /\ s.gap = o.gap
  /\ NearSeq(s.dash, o.dash, 2) /\ Near(s.doff, o.doff, 2)
IsGrad(p) == p.t = "grad"
If(c, a) == IF c THEN {a} ELSE {}

\* expected path p against observed path o
PathDiff(p, o) ==
  LET s == p.st t == o.st
  IN If(~Matches(p.ops, o.ops, 2), "geom")
     \cup If(~PaintAgree(s.fill, t.fill) \/ ~PaintAgree(s.line, t.line),
             IF IsGrad(s.fill) \/ IsGrad(s.line) THEN "grad" ELSE "paint")
     \cup If(~StrokeAgree(s, t), "stroke")
     \cup If(~Near(s.fo, t.fo, 4) \/ ~Near(s.lo, t.lo, 4), "opac")
     \cup If(~MatrixNear(s.t, t.t), "xform")
     \cup If(s.masks # t.masks, "refs")
PathsDiff(ps, os) ==
  If(Len(ps) # Len(os), "count")
  \cup UNION {PathDiff(ps[i], os[i]) : i \in 1..Min2(Len(ps), Len(os))}

\* index of the first path that disagrees, 0 if none does
FirstBad(ps, os) ==
  LET bad == {i \in 1..Min2(Len(ps), Len(os)) : PathDiff(ps[i], os[i]) # {}}
  IN IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j

MaskDiff(masks, os) ==
  LET ids == {os[i].id : i \in 1..Len(os)}
      ob(id) == os[CHOOSE i \in 1..Len(os) : os[i].id = id]
  IN IF ids # DOMAIN masks THEN {"maskids"}
     ELSE UNION {LET m == masks[id] o == ob(id)
                 IN If(o.own # id, "maskids") \cup If(~NearSeq(m.g, o.g, 1), "maskgeo")
                    \cup If(PathsDiff(m.paths, o.paths) # {}, "maskpaths") : id \in ids}

MetaDiff(st, d) ==
  If(~NearSeq(st.vb, d.vb, 1) \/ st.w # d.w \/ st.h # d.h, "size")
  \cup If(st.titles # d.titles \/ st.descs # d.descs, "text")

\* what a failing parse still returns: all that was drawn before the failing element
Salvaged(st, d) ==
  LET n == Len(st.paths)
  IN IF Len(d.paths) < n \/ Len(d.paths) > n + 1 THEN {"salvage"}
     ELSE IF UNION {PathDiff(st.paths[i], d.paths[i]) : i \in 1..n} # {} THEN {"salvage"} ELSE {}

Diff(st, obs) ==
  IF obs.out # "ok" THEN {obs.out}                              \* panic or hang
  ELSE IF st.err # obs.err THEN {IF st.err THEN "noerr" ELSE "err"}
  ELSE IF st.err THEN IF st.seen THEN If(obs.nil, "nil") \cup (IF obs.nil THEN {} ELSE Salvaged(st, obs.doc)) ELSE {}
  ELSE IF obs.nil THEN {"nil"}
  ELSE PathsDiff(st.paths, obs.doc.paths) \cup MaskDiff(st.masks, obs.doc.masks)
       \cup MetaDiff(st, obs.doc)
       \cup If(obs.logs # (IF st.mode = "warn" THEN st.warns ELSE 0), "logs")

Witnessed(st) ==
  /\ \A i \in 1..Len(st.paths) : WitnessesOK(st.paths[i].ops)
  /\ \A id \in DOMAIN st.masks : \A i \in 1..Len(st.masks[id].paths) : WitnessesOK(st.masks[id].paths[i].ops)

Aspects == <<"witness", "panic", "hang", "noerr", "err", "nil", "salvage", "count", "geom", "paint", "grad", "stroke",
             "opac", "xform", "refs", "maskids", "maskgeo", "maskpaths", "size", "text", "logs">>
RECURSIVE Listed(_, _)
Listed(d, i) == IF i > Len(Aspects) THEN ""
                ELSE (IF Aspects[i] \in d THEN Aspects[i] \o "," ELSE "") \o Listed(d, i + 1)
=============================================================================
