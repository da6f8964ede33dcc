------------------------------ MODULE SvgPaint ------------------------------
(* What a back end paints.  The state is the canvas; every path of the        *)
(* picture is one transition that lays its fill and then its stroke over it.  *)
(* The canvas is known at sample points only.  Coverage of a point is one of  *)
(* Out, Maybe, In: points that are too close to an outline, or in a part of   *)
(* an outline that back ends may draw in their own way, are Maybe.            *)
(* Lengths are in 1/U pixel, all coordinates within 19000 of each other.      *)
EXTENDS SvgMatrix

Out == 0
Maybe == 1
In == 2
Blur == 3
Pix == 52        \* half the diagonal of a pixel and the rounding of coordinates
Mg == 70         \* the same plus the error of flattened curves

\* ---- the map onto the target rectangle
TargetMatrix(vb, rect) ==
  LET sx == IF vb[3] = 0 THEN S ELSE MulDiv(rect[3], S, vb[3])
      sy == IF vb[4] = 0 THEN S ELSE MulDiv(rect[4], S, vb[4])
  IN <<sx, 0, 0, sy, rect[1] - MulDiv(vb[1], sx, S), rect[2] - MulDiv(vb[2], sy, S)>>
\* options: target (in 1/U) and opacity (in 1/S), in any order
OptTarget(vb, opts) == FoldLeft(LAMBDA a, o : IF o.k = "target" THEN TargetMatrix(vb, o.v) ELSE a, Id, opts)
OptOpacity(opts) == FoldLeft(LAMBDA a, o : IF o.k = "opacity" THEN o.v[1] ELSE a, S, opts)

\* ---- subpaths as polylines: [p |-> points, c |-> is the point a corner, z |-> closed, cv |-> has curves]
QuadPt(a, b, c, k) == LET n == 12 j == n - k f(i) == RDiv(j * j * a[i] + 2 * k * j * b[i] + k * k * c[i], n * n) IN <<f(1), f(2)>>
CubePt(a, b, c, d, k) ==
  LET n == 24 j == n - k
      f(i) == RDiv(j * j * j * a[i] + 3 * k * j * j * b[i] + 3 * k * k * j * c[i] + k * k * k * d[i], n * n * n)
  IN <<f(1), f(2)>>
Nothing == [p |-> <<>>, c |-> <<>>, z |-> FALSE, cv |-> FALSE]
\* a point equal to the previous one adds nothing
Put(sp, pt, corner) == IF Last(sp.p) = pt THEN [sp EXCEPT !.c[Len(sp.c)] = @ \/ corner]
                       ELSE [sp EXCEPT !.p = Append(@, pt), !.c = Append(@, corner)]
Flat(ops, m) ==
  LET at(o, i) == Apply(m, o.p[2 * i - 1], o.p[2 * i])
      step(s, o) ==
        CASE o.k = "M" -> [done |-> IF s.cur.p = <<>> THEN s.done ELSE Append(s.done, s.cur), cur |-> [Nothing EXCEPT !.p = <<at(o, 1)>>, !.c = <<TRUE>>]]
          [] o.k = "L" -> [s EXCEPT !.cur = Put(@, at(o, 1), TRUE)]
          [] o.k = "Q" -> LET a == Last(s.cur.p) b == at(o, 1) c == at(o, 2)
                          IN [s EXCEPT !.cur = [FoldLeft(LAMBDA q, k : Put(q, QuadPt(a, b, c, k), k = 12), @, [k \in 1..12 |-> k]) EXCEPT !.cv = TRUE]]
          [] o.k = "C" -> LET a == Last(s.cur.p) b == at(o, 1) c == at(o, 2) d == at(o, 3)
                          IN [s EXCEPT !.cur = [FoldLeft(LAMBDA q, k : Put(q, CubePt(a, b, c, d, k), k = 24), @, [k \in 1..24 |-> k]) EXCEPT !.cv = TRUE]]
          [] o.k = "Z" -> LET q == s.cur
                          IN [done |-> Append(s.done, IF Len(q.p) > 1 /\ Last(q.p) = q.p[1]
                                                      THEN [q EXCEPT !.p = Front(@), !.c = Front(@), !.z = TRUE]
                                                      ELSE [q EXCEPT !.z = TRUE]),
                              cur |-> Nothing]
      e == FoldLeft(step, [done |-> <<>>, cur |-> Nothing], ops)
  IN IF e.cur.p = <<>> THEN e.done ELSE Append(e.done, e.cur)

\* ---- segments
Seg(a, b) == LET dx == b[1] - a[1] dy == b[2] - a[2]
             IN [x |-> a[1], y |-> a[2], ex |-> b[1], ey |-> b[2], dx |-> dx, dy |-> dy, len |-> ISqrt(dx * dx + dy * dy)]
Dist2(x, y, p) == (p[1] - x) * (p[1] - x) + (p[2] - y) * (p[2] - y)
Within(x, y, p, r) == Abs(p[1] - x) <= r /\ Abs(p[2] - y) <= r /\ Dist2(x, y, p) <= r * r
NearBox(s, p, r) == /\ p[1] >= Min2(s.x, s.ex) - r /\ p[1] <= Max2(s.x, s.ex) + r
                    /\ p[2] >= Min2(s.y, s.ey) - r /\ p[2] <= Max2(s.y, s.ey) + r
Along(s, p) == IF s.len = 0 THEN 0 ELSE RDiv((p[1] - s.x) * s.dx + (p[2] - s.y) * s.dy, s.len)
Cross(s, p) == (p[1] - s.x) * s.dy - (p[2] - s.y) * s.dx
Perp(s, p) == IF s.len = 0 THEN ISqrt(Dist2(s.x, s.y, p)) ELSE Abs(Cross(s, p)) \div s.len
NearSeg(s, p, r) ==
  /\ NearBox(s, p, r)
  /\ \/ Within(s.x, s.y, p, r)
     \/ Within(s.ex, s.ey, p, r)
     \/ LET al == Along(s, p) IN al >= 0 /\ al <= s.len /\ Perp(s, p) <= r

\* ---- fill
FillEdges(subs) ==
  FoldLeft(LAMBDA acc, q : IF Len(q.p) < 2 THEN acc
                           ELSE acc \o [i \in 1..Len(q.p) |-> Seg(q.p[i], q.p[(i % Len(q.p)) + 1])], <<>>, subs)
FillAt(edges, nz, p) ==
  IF \E i \in 1..Len(edges) : NearSeg(edges[i], p, Mg) THEN Maybe
  ELSE LET right(e) == LET c == Cross(e, p) IN IF e.dy > 0 THEN c < 0 ELSE c > 0     \* the crossing lies to the right
           hit(e) == (e.y <= p[2]) # (e.ey <= p[2]) /\ right(e)
           up == Cardinality({i \in 1..Len(edges) : edges[i].dy < 0 /\ hit(edges[i])})
           dn == Cardinality({i \in 1..Len(edges) : edges[i].dy > 0 /\ hit(edges[i])})
       IN IF nz THEN IF up # dn THEN In ELSE Out
          ELSE IF (up + dn) % 2 = 1 THEN In ELSE Out

\* ---- stroke
ColLen(x, y) == 4 * ISqrt((x \div 4) * (x \div 4) + (y \div 4) * (y \div 4))
ScaleLo(m) == Min2(ColLen(m[1], m[2]), ColLen(m[3], m[4]))
ScaleHi(m) == Max2(ColLen(m[1], m[2]), ColLen(m[3], m[4]))
\* the images of the unit vectors are perpendicular
Square(m) == Abs(MulDiv(m[1], m[3], S) + MulDiv(m[2], m[4], S)) <= 40 + MulDiv(ScaleHi(m), ScaleHi(m), S) \div 100
Similar(m) == Square(m) /\ ScaleHi(m) - ScaleLo(m) <= 12 + ScaleHi(m) \div 100

EndCaps(st, back) ==   \* at the beginning and at the end of a subpath
  LET t == IF st.tcap = "NilCap" THEN "ButtCap" ELSE st.tcap
      plain == IF t \in {"CubicCap", "QuadraticCap"} THEN "Any" ELSE t
  IN IF back = "rasterx" THEN <<t, IF st.lcap = "NilCap" THEN t ELSE st.lcap>>
     ELSE <<plain, IF st.lcap \in {"NilCap", st.tcap} THEN plain ELSE "Any">>

\* the outer shape of a corner; lim = the miter limit is exceeded: "yes", "no", "near"
CornerShape(st, back, lim, curved) ==
  LET gap == CASE st.gap = "NilGap" -> (IF st.join = "Round" THEN "round" ELSE "bevel")
               [] st.gap = "FlatGap" -> "bevel" [] st.gap = "RoundGap" -> "round"
               [] st.gap = "CubicGap" -> "cubic" [] st.gap = "QuadraticGap" -> "quad" [] OTHER -> "any"
      mitred == IF lim = "near" THEN "any" ELSE IF lim = "no" THEN "miter"
                ELSE IF st.join \in {"Miter", "Arc"} THEN gap
                ELSE IF gap = "bevel" THEN "clip" ELSE "any"
  IN IF back = "rasterx"
     THEN CASE st.join \in {"Round", "Bevel"} -> gap
            [] st.join \in {"Miter", "MiterClip"} -> mitred
            [] st.join \in {"Arc", "ArcClip"} -> IF curved THEN "any" ELSE mitred
            [] OTHER -> "any"
     ELSE CASE st.join = "Round" -> "round" [] st.join = "Bevel" -> "bevel" [] OTHER -> "any"

\* phase of the dash pattern at length s: is it a dash, and how far is the nearest, the last and the next change
RECURSIVE PhaseIn(_, _, _)
PhaseIn(dash, i, r) == IF r < dash[i] THEN [on |-> i % 2 = 1, d |-> Min2(r, dash[i] - r), lo |-> r, up |-> dash[i] - r]
                       ELSE PhaseIn(dash, (i % Len(dash)) + 1, r - dash[i])
Phase(dash, off, s) == IF dash = <<>> THEN [on |-> TRUE, d |-> 100000, lo |-> 100000, up |-> 100000]
                       ELSE PhaseIn(dash, 1, (s + off) % SumSeq(dash))

\* everything about the stroke of one subpath that does not depend on the point
Outline(q, k, st, m, back) ==
  LET n == Len(q.p)
      cnt == IF q.z THEN n ELSE n - 1
      segs == TLCEval([i \in 1..cnt |-> Seg(q.p[i], q.p[(i % n) + 1])])
      cum == FoldLeft(LAMBDA a, s : Append(a, Last(a) + s.len), <<0>>, segs)
      lo == MulDiv(st.lw, ScaleLo(m), S) \div 2 - 1
      hi == MulDiv(st.lw, ScaleHi(m), S) \div 2 + 1
      sc == LineScale(m)
      \* dashes of no length and negative offsets are drawn in several ways
      odd == \E i \in 1..Len(st.dash) : st.dash[i] < 32
      strange == st.dash # <<>> /\ (odd \/ st.doff < 0)
      even == IF Len(st.dash) % 2 = 1 THEN st.dash \o st.dash ELSE st.dash
      dash == IF strange THEN <<>> ELSE [i \in 1..Len(even) |-> Max2(1, MulDiv(even[i], sc, S))]
      off == IF strange THEN 0 ELSE MulDiv(st.doff, sc, S)
      caps == EndCaps(st, back)
      \* corners: vertex v joins segment v - 1 and segment v
      before(v) == segs[IF v = 1 THEN cnt ELSE v - 1]
      vs == IF q.z THEN 1..n ELSE 2..(n - 1)
      cosT(v) == LET a == before(v) b == segs[v]
                 IN IF a.len = 0 \/ b.len = 0 THEN S
                    ELSE RDiv(RDiv(a.dx * b.dx + a.dy * b.dy, a.len) * 1024, b.len) * 4
      ch(v) == ISqrt(2048 * Max2(0, S + cosT(v)))
      corner(v) == q.c[v] /\ cosT(v) < 4030
      sharp(v) == v \notin vs \/ corner(v)
      curvedAt(v) == \E w \in {(v % n) + 1, IF v = 1 THEN n ELSE v - 1} : ~q.c[w]
      lim(v) == LET e == ch(v) * Clamp(st.ml, 0, 20000) IN
                IF e > 64 * S + 4 * S THEN "no" ELSE IF e < 60 * S THEN "yes" ELSE "near"
      ph(v) == Phase(dash, off, cum[v])
      far == 2 * hi + Mg
      clean(v) == ph(v).d >= hi + Mg + cum[v] \div 40
      vert(v) == LET a == before(v) b == segs[v]
                     sg == IF a.dx * b.dy - a.dy * b.dx > 0 THEN 1 ELSE -1
                 IN [x |-> b.x, y |-> b.y, a |-> a, b |-> b, sg |-> sg, cosT |-> cosT(v), ch |-> ch(v),
                     shape |-> CornerShape(st, back, lim(v), curvedAt(v)), ml |-> st.ml,
                     dim |-> dash # <<>> /\ (v = 1 \/ ~clean(v)), off |-> dash # <<>> /\ v # 1 /\ clean(v) /\ ~ph(v).on]
      \* places where outlines of wide strokes overlap in ways that are not specified: how far they reach, 0 if not at all
      roughV(v) == LET a == before(v) b == segs[v]
                       prev == IF v = 1 THEN n ELSE v - 1
                       next == (v % n) + 1
                       short(s, e1, e2) == e1 /\ e2 /\ s.len < hi + hi \div 2
                       turn == ISqrt(Max2(0, 2 * S * (S - cosT(v))))
                   IN IF corner(v) THEN IF cosT(v) < -3700 \/ short(a, q.c[prev], q.c[v]) \/ short(b, q.c[v], q.c[next]) THEN 2 * hi + Mg ELSE 0
                      ELSE \* the radius of the bend against the half width; a bend next to the end of the curve
                           IF \/ MulDiv(Min2(a.len, b.len), S, Max2(1, turn)) < 2 * hi
                              \/ (q.c[prev] \/ q.c[next]) /\ turn > S \div 4
                           THEN 2 * hi + Mg + Max2(a.len, b.len) ELSE 0
  IN [segs |-> segs, cum |-> cum, lo |-> lo, hi |-> hi, dash |-> dash, off |-> off, cv |-> q.cv, z |-> q.z, gg |-> back = "gg", n |-> n, cnt |-> cnt,
      caps |-> caps, tight |-> TLCEval([i \in 1..cnt |-> <<sharp(i), sharp((i % n) + 1)>>]),
      verts |-> TLCEval([v \in {w \in vs : corner(w)} |-> vert(v)]),
      rough |-> TLCEval([v \in {w \in vs : roughV(w) > 0} |-> roughV(v)]),
      \* subpaths after the first: gg does not restart the pattern
      \* arcs of any radius, and clipped miters of corners that nearly turn back
      wild |-> back = "rasterx" /\ (IF q.cv /\ st.join \in {"Arc", "ArcClip"} THEN TRUE
                                    ELSE st.join \in {"MiterClip", "ArcClip"} /\ \E v \in vs : corner(v) /\ cosT(v) < -3700),
      vague |-> strange \/ ~Square(m) \/ (dash # <<>> /\ (~Similar(m) \/ (back = "gg" /\ k > 1 /\ off # 0)))]

BodyAt(o, i, p) ==
  LET s == o.segs[i] IN
  IF s.len = 0 \/ ~NearBox(s, p, o.hi + Mg) THEN Out
  ELSE LET al == Along(s, p)
           pe == Perp(s, p)
           solid == IF /\ pe <= o.lo - Mg /\ al >= (IF o.tight[i][1] THEN Mg ELSE 0)
                       /\ al <= s.len - (IF o.tight[i][2] THEN Mg ELSE 0) THEN In
                    ELSE IF pe <= o.hi + Mg /\ al >= -Mg /\ al <= s.len + Mg THEN Maybe ELSE Out
           at == o.cum[i] + Clamp(al, 0, s.len)
           ph == Phase(o.dash, o.off, at)
           md == Mg + at \div (IF o.cv THEN 30 ELSE 100)
       IN IF solid = Out \/ o.dash = <<>> THEN solid
          ELSE IF ph.on THEN IF ph.d >= md THEN solid ELSE Min2(solid, Maybe)
          ELSE CASE o.caps = <<"ButtCap", "ButtCap">> -> IF ph.d >= md THEN Out ELSE Min2(solid, Maybe)
                 [] o.caps = <<"SquareCap", "SquareCap">> /\ ~o.cv /\ (IF ph.lo <= o.lo - md /\ at - ph.lo >= md THEN TRUE
                                                                           ELSE ph.up <= o.lo - md /\ at + ph.up <= Last(o.cum) - md) -> solid
                 [] OTHER -> IF ph.d >= o.hi + md THEN Out ELSE Min2(solid, Maybe)

\* the cap at the end of segment s (its beginning if ~fwd)
CapAt(o, cap, s, fwd, p) ==
  LET al == IF fwd THEN Along(s, p) - s.len ELSE -Along(s, p)
      pe == Perp(s, p)
      x == IF fwd THEN s.ex ELSE s.x
      y == IF fwd THEN s.ey ELSE s.y
      box(f) == pe <= o.hi + Mg /\ al >= -Mg /\ al <= f + Mg
      tip(w, f) == pe <= MulDiv(o.lo, w, 100) /\ al >= 0 /\ al <= MulDiv(o.lo, f, 100) - Mg
  IN IF ~Within(x, y, p, 2 * o.hi + 2 * Mg) THEN Out
     ELSE CASE cap = "ButtCap" -> Out
            [] cap = "SquareCap" -> IF pe <= o.lo - Mg /\ al >= -Mg /\ al <= o.lo - Mg THEN In ELSE IF box(o.hi) THEN Maybe ELSE Out
            [] cap = "RoundCap" -> IF o.lo > Mg /\ al >= (IF s.len >= o.hi THEN 0 ELSE Mg) /\ Within(x, y, p, o.lo - Mg) THEN In ELSE IF Within(x, y, p, o.hi + Mg) THEN Maybe ELSE Out
            [] cap = "CubicCap" -> IF tip(60, 55) THEN In ELSE IF box(MulDiv(o.hi, 75, 100)) THEN Maybe ELSE Out
            [] cap = "QuadraticCap" -> IF tip(48, 37) THEN In ELSE IF box(MulDiv(o.hi, 50, 100)) THEN Maybe ELSE Out
            [] OTHER -> IF box(o.hi) THEN Maybe ELSE Out

\* caps of an open subpath; with dashes only where the pattern has a dash
EndAt(o, fwd, p) ==
  LET s == IF fwd THEN o.segs[o.cnt] ELSE o.segs[1]
      at == IF fwd THEN o.cum[o.cnt + 1] ELSE 0
      ph == Phase(o.dash, o.off, at)
      c == CapAt(o, o.caps[IF fwd THEN 2 ELSE 1], s, fwd, p)
  IN IF o.dash = <<>> \/ c = Out THEN c
     ELSE IF ph.d < o.hi + Mg + at \div 30 THEN Maybe
     ELSE IF ph.on THEN c ELSE Out

JoinAt(o, v, p) ==
  LET t == o.verts[v]
      r(d, x) == IF t.sg > 0 THEN d ELSE x
      reach == Max2(2 * o.hi, MulDiv(o.hi, t.ml, 64)) + 2 * Mg
  IN IF ~Within(t.x, t.y, p, Min2(reach, 12000)) \/ t.off THEN Out
     ELSE LET px == p[1] - t.x  py == p[2] - t.y
              dot(s) == RDiv(px * s.dx + py * s.dy, s.len)
              nrm(s) == t.sg * RDiv(px * s.dy - py * s.dx, s.len)
              s1 == dot(t.a)  s2 == -dot(t.b)
              a1 == nrm(t.a)  a2 == nrm(t.b)
              b == IF t.ch = 0 THEN 0 ELSE MulDiv(a1 + a2, S, 2 * t.ch)
              wedge == s1 >= 0 /\ s2 >= 0
              near == s1 >= -Mg /\ s2 >= -Mg
              bevelIn == wedge /\ b <= MulDiv(o.lo, t.ch, S) - Mg
              disc(f) == Within(t.x, t.y, p, f)
              mitre == near /\ a1 <= o.hi + Mg /\ a2 <= o.hi + Mg
              right == Abs(t.cosT) < 200
              \* near the diagonal of a right corner, up to f percent of the half width
              diag(f) == right /\ wedge /\ Abs(a1 - a2) <= o.lo \div 10 /\ b <= MulDiv(o.lo, f, 100) - Mg
              cut == MulDiv(o.hi, t.ml, 64)
              cutIn == MulDiv(o.lo, t.ml, 64)
          IN IF o.lo > Mg /\ disc(Max2(0, MulDiv(o.lo, t.ch, S) - Mg)) /\ ~t.dim THEN In
             ELSE LET c == CASE t.shape = "bevel" -> IF bevelIn THEN In ELSE IF near /\ b <= MulDiv(o.hi, t.ch, S) + Mg THEN Maybe ELSE Out
                             [] t.shape = "round" -> IF wedge /\ o.lo > Mg /\ disc(o.lo - Mg) THEN In ELSE IF near /\ disc(o.hi + Mg) THEN Maybe ELSE Out
                             [] t.shape = "miter" -> IF wedge /\ a1 <= o.lo - Mg /\ a2 <= o.lo - Mg THEN In ELSE IF mitre THEN Maybe ELSE Out
                             [] t.shape = "clip" -> IF bevelIn \/ (wedge /\ a1 <= o.lo - Mg /\ a2 <= o.lo - Mg /\ b <= cutIn - Mg) THEN In ELSE IF mitre /\ b <= cut + 2 * Mg THEN Maybe ELSE Out
                             [] t.shape = "cubic" -> IF bevelIn \/ diag(120) THEN In
                                                     ELSE IF near /\ disc(IF right THEN MulDiv(o.hi, 125, 100) + Mg ELSE 2 * o.hi + Mg) THEN Maybe ELSE Out
                             [] t.shape = "quad" -> IF bevelIn \/ diag(103) THEN In
                                                    ELSE IF near /\ disc(IF right THEN MulDiv(o.hi, 108, 100) + Mg ELSE 2 * o.hi + Mg) THEN Maybe ELSE Out
                             [] OTHER -> IF bevelIn THEN In ELSE IF mitre \/ disc(2 * o.hi + Mg) THEN Maybe ELSE Out
                  IN IF t.dim THEN Min2(c, Maybe) ELSE c

SubAt(o, p) ==
  IF o.cnt < 1 \/ o.hi <= 1 THEN Out
  ELSE LET \* corners that a dash may reach into are drawn in several ways
           murky == \/ \E v \in DOMAIN o.rough : Within(o.segs[v].x, o.segs[v].y, p, o.rough[v])
                    \/ \E v \in DOMAIN o.verts : o.verts[v].dim /\ Within(o.verts[v].x, o.verts[v].y, p, 2 * o.hi + 2 * Mg)
                    \* the seam of a closed subpath: gg ends it with two caps, dashes are drawn in several ways
                    \/ o.z /\ (o.gg \/ o.dash # <<>>) /\ Within(o.segs[1].x, o.segs[1].y, p, 2 * o.hi + 2 * Mg)
           val(f(_), D) == IF \E i \in D : f(i) = In THEN In ELSE IF \E i \in D : f(i) = Maybe THEN Maybe ELSE Out
           body(i) == BodyAt(o, i, p)
           join(v) == JoinAt(o, v, p)
           end(i) == EndAt(o, i = 2, p)
           c == Max2(val(body, 1..o.cnt), Max2(val(join, DOMAIN o.verts), IF o.z THEN Out ELSE val(end, {1, 2})))
       IN IF murky \/ o.wild THEN Blur
          ELSE IF o.vague THEN IF c # Out \/ \E i \in 1..o.cnt : NearSeg(o.segs[i], p, 2 * o.hi + Mg) THEN Maybe ELSE Out
          \* caps of dashes of a curve stick out of it
          ELSE IF c = Out /\ o.dash # <<>> /\ o.cv /\ o.caps # <<"ButtCap", "ButtCap">> /\ \E i \in 1..o.cnt : NearSeg(o.segs[i], p, o.hi + o.hi \div 2 + Mg) THEN Maybe
          ELSE c
StrokeAt(outlines, p) ==
  LET at(i) == SubAt(outlines[i], p)
  IN IF \E i \in 1..Len(outlines) : at(i) = Blur THEN Maybe      \* outlines of any orientation may cancel each other
     ELSE IF \E i \in 1..Len(outlines) : at(i) = In THEN In
     ELSE IF \E i \in 1..Len(outlines) : at(i) = Maybe THEN Maybe ELSE Out

\* ---- colours: [ok, c |-> <<r, g, b>> in 1/16, a |-> alpha in 1/S, e |-> uncertainty in 1/16]
Unknown == [ok |-> FALSE, c |-> <<0, 0, 0>>, a |-> S, e |-> 0]
Plain(c, a, e) == [ok |-> TRUE, c |-> <<16 * c[1], 16 * c[2], 16 * c[3]>>, a |-> a, e |-> e]
Degenerate(g) == IF g.kind = "lin" THEN g.dir[1] = g.dir[3] /\ g.dir[2] = g.dir[4] ELSE g.kind = "rad" /\ g.dir[5] <= 0
\* the colour of the last stop is all there is
OneColour(g) == Len(g.stops) = 1 \/ (Len(g.stops) > 1 /\ Degenerate(g))
\* all stops have the same colour and are opaque
Uniform(g) == ~Degenerate(g) /\ Len(g.stops) > 1 /\ \A i \in 1..Len(g.stops) : g.stops[i].c = g.stops[1].c /\ g.stops[i].op = S
\* the inner circle lies within the outer one, so that the gradient covers the plane
Covers(g) == g.kind = "lin" \/ Abs(g.dir[3] - g.dir[1]) + Abs(g.dir[4] - g.dir[2]) + g.dir[6] < g.dir[5]
Bounds(edges) ==
  LET f(b, e) == <<Min2(b[1], Min2(e.x, e.ex)), Min2(b[2], Min2(e.y, e.ey)), Max2(b[3], Max2(e.x, e.ex)), Max2(b[4], Max2(e.y, e.ey))>>
  IN FoldLeft(f, <<100000, 100000, -100000, -100000>>, edges)
\* position along the gradient, in 1/S; e is its uncertainty
GradPos(g, m, edges, p) ==
  LET bx == Bounds(edges)
      w == bx[3] - bx[1]  h == bx[4] - bx[2]
      lin(x1, y1, x2, y2) ==
        LET s == Seg(<<x1, y1>>, <<x2, y2>>)
        IN IF s.len < 128 THEN [ok |-> FALSE, t |-> 0, e |-> 0] ELSE [ok |-> TRUE, t |-> MulDiv(Along(s, p), S, s.len), e |-> 6 + MulDiv(30, S, s.len)]
      rad(cx, cy, rx, ry) ==
        IF rx < 128 \/ ry < 128 THEN [ok |-> FALSE, t |-> 0, e |-> 0]
        ELSE LET x == RDiv((p[1] - cx) * 1024, rx)  y == RDiv((p[2] - cy) * 1024, ry)
             IN IF Abs(x) > 30000 \/ Abs(y) > 30000 THEN [ok |-> FALSE, t |-> 0, e |-> 0]
                ELSE [ok |-> TRUE, t |-> 4 * ISqrt(x * x + y * y), e |-> 24 + MulDiv(30, S, Min2(rx, ry)) + ISqrt(x * x + y * y) \div 64]
      d == g.dir
      upright == m[1] > 0 /\ m[4] > 0 /\ m[2] = 0 /\ m[3] = 0
      \* a fraction of the bounds, or a place in user space (both given in 1/S)
      fx(v) == bx[1] + MulDiv(w, v, S)
      fy(v) == bx[2] + MulDiv(h, v, S)
      t == Mul(m, g.m)
      us(x, y) == Apply(t, RDiv(x, 64), RDiv(y, 64))
      no == [ok |-> FALSE, t |-> 0, e |-> 0]
  IN IF g.units = 0 /\ g.m # Id THEN no
     ELSE IF g.kind = "lin"
     THEN IF g.units = 0 THEN IF upright /\ (d[1] = d[3] \/ d[2] = d[4] \/ Abs(w - h) <= w \div 200) THEN lin(fx(d[1]), fy(d[2]), fx(d[3]), fy(d[4])) ELSE no
          ELSE IF Similar(t) THEN LET a == us(d[1], d[2]) b == us(d[3], d[4]) IN lin(a[1], a[2], b[1], b[2]) ELSE no
     ELSE IF g.kind # "rad" \/ d[1] # d[3] \/ d[2] # d[4] \/ d[6] # 0 THEN no
     ELSE IF g.units = 0 THEN IF upright THEN rad(fx(d[1]), fy(d[2]), MulDiv(w, d[5], S), MulDiv(h, d[5], S)) ELSE no
     ELSE LET a == us(d[1], d[2])
              r == RDiv(d[5], 64)
          IN IF Similar(t) THEN rad(a[1], a[2], MulDiv(r, LineScale(t), S), MulDiv(r, LineScale(t), S))
             ELSE IF t[2] = 0 /\ t[3] = 0 THEN rad(a[1], a[2], Abs(MulDiv(r, t[1], S)), Abs(MulDiv(r, t[4], S)))
             ELSE no
GradColour(g, op, pos) ==
  LET n == Len(g.stops)
      folded == IF g.spread = 0 THEN Clamp(pos.t, 0, S)
                ELSE IF g.spread = 2 THEN pos.t % S
                ELSE LET r == pos.t % (2 * S) IN IF r > S THEN 2 * S - r ELSE r
      jump == g.spread = 2 /\ (folded <= pos.e + 4 \/ folded >= S - pos.e - 4)
      \* gaps between stops must be wide enough to know the colour
      sorted == \A i \in 1..(n - 1) : g.stops[i].off + S \div 16 <= g.stops[i + 1].off
      whole == g.spread # 2 \/ (g.stops[1].off = 0 /\ g.stops[n].off = S)
      mix(a, b, f, w) == RDiv(a * (w - f) + b * f, w)
      at(i) == LET s == g.stops[i] u == g.stops[i + 1] w == u.off - s.off f == folded - s.off
               IN [ok |-> TRUE, c |-> [k \in 1..3 |-> mix(16 * s.c[k], 16 * u.c[k], f, w)],
                   a |-> MulDiv(mix(s.op, u.op, f, w), op, S), e |-> 24 + MulDiv(255 * 16, pos.e + 4, w)]
      one(i) == Plain(g.stops[i].c, MulDiv(g.stops[i].op, op, S),
                      24 + (IF n > 1 THEN MulDiv(255 * 16, pos.e + 4, S \div 16) \div 8 ELSE 0))
  IN IF n < 2 \/ ~sorted \/ ~whole \/ jump THEN Unknown
     ELSE IF folded <= g.stops[1].off THEN one(1)
     ELSE IF folded >= g.stops[n].off THEN one(n)
     ELSE at(CHOOSE i \in 1..(n - 1) : g.stops[i].off < folded /\ folded <= g.stops[i + 1].off)
Colour(pat, op, back, stroke, m, edges, p) ==
  CASE pat.t = "color" -> Plain(pat.c, MulDiv(pat.c[4], op * 16, 255) \div 16, 24)
    [] pat.t = "grad" -> IF op = 0 THEN Plain(<<0, 0, 0>>, 0, 0)
                         ELSE IF Uniform(pat) /\ Covers(pat) THEN Plain(pat.stops[1].c, op, 24)
                         ELSE IF back = "rasterx" /\ OneColour(pat) THEN LET s == pat.stops[Len(pat.stops)] IN Plain(s.c, MulDiv(s.op, op, S), 24)
                         ELSE IF back = "rasterx" /\ ~stroke /\ edges # <<>>
                         THEN LET pos == GradPos(pat, m, edges, p) IN IF pos.ok THEN GradColour(pat, op, pos) ELSE Unknown
                         ELSE IF back = "rasterx" /\ stroke /\ pat.units = 1
                         THEN LET pos == GradPos(pat, m, <<>>, p) IN IF pos.ok THEN GradColour(pat, op, pos) ELSE Unknown
                         ELSE Unknown
    [] OTHER -> Unknown

\* ---- laying one colour over another; canvas value [ok, c, e]
White == [ok |-> TRUE, c |-> <<4080, 4080, 4080>>, e |-> 0]
Over(v, cov, k, mask) ==     \* mask: alpha in 1/S of the mask at the point, or -1 if not known
  IF cov = Out \/ mask = 0 THEN v
  ELSE IF k.ok /\ k.a = 0 THEN v
  ELSE IF cov = Maybe \/ mask < 0 \/ ~k.ok THEN [v EXCEPT !.ok = FALSE]
  ELSE LET a == MulDiv(k.a, mask, S)
       IN IF ~v.ok /\ a < S - 8 THEN v
          ELSE [ok |-> TRUE, c |-> [i \in 1..3 |-> RDiv(k.c[i] * a + (IF v.ok THEN v.c[i] ELSE 0) * (S - a), S)], e |-> (IF v.ok THEN v.e ELSE 0) + k.e]

\* ---- a path, prepared for a back end: matrix, edges, outlines
Prepare(path, m, back) ==
  LET st == path.st
      subs == TLCEval(Flat(path.ops, m))
  IN [st |-> st, m |-> m,
      edges |-> IF st.fill.t = "none" THEN <<>> ELSE TLCEval(FillEdges(subs)),
      outs |-> IF st.line.t = "none" \/ st.lw = 0 THEN <<>> ELSE TLCEval([i \in 1..Len(subs) |-> Outline(subs[i], i, st, m, back)])]
\* the transition of one sample point: fill, then stroke
Paint(v, g, op, back, p, mask) ==
  LET st == g.st
      f == IF st.fill.t = "none" THEN v
           ELSE Over(v, FillAt(g.edges, st.nz, p), Colour(st.fill, MulDiv(st.fo, op, S), back, FALSE, g.m, g.edges, p), mask)
  IN IF st.line.t = "none" \/ st.lw = 0 THEN f
     ELSE Over(f, StrokeAt(g.outs, p), Colour(st.line, MulDiv(st.lo, op, S), back, TRUE, g.m, <<>>, p), mask)

\* ---- masks of the gg back end: the alpha of the content of the innermost mask,
\* drawn in the coordinates of the masked path.  A mask is prepared as
\* [no |-> there is no mask, layers |-> the prepared paths of its content].
MaskOf(masks, id) == LET w == {i \in 1..Len(masks) : masks[i].id = id} IN IF w = {} THEN <<>> ELSE <<masks[CHOOSE i \in w : TRUE]>>
NoMask == [no |-> TRUE, layers |-> <<>>]
RECURSIVE PrepareMask(_, _, _, _)
PrepareMask(masks, ids, m, open) ==
  IF ids = <<>> THEN NoMask
  ELSE LET id == Last(ids)
           found == MaskOf(masks, id)
       IN IF id \in open \/ found = <<>> THEN NoMask
          ELSE [no |-> FALSE,
                layers |-> [i \in 1..Len(found[1].paths) |->
                  LET path == found[1].paths[i]
                      mm == Mul(m, path.st.t)
                  IN [g |-> Prepare(path, mm, "gg"), mask |-> PrepareMask(masks, path.st.masks, mm, open \cup {id})]]]
RECURSIVE MaskAlpha(_, _)
MaskAlpha(mk, p) ==      \* in 1/S, -1 when not known
  IF mk.no THEN S
  ELSE LET layer(a, l) ==
             LET g == l.g
                 in == MaskAlpha(l.mask, p)
                 lay(x, cov, k) == IF cov = Out \/ in = 0 THEN x
                                   ELSE IF k.ok /\ k.a = 0 THEN x
                                   ELSE IF cov = Maybe \/ in < 0 \/ ~k.ok THEN -1
                                   ELSE LET al == MulDiv(k.a, in, S)
                                        IN IF al >= S - 8 THEN S ELSE IF x < 0 THEN -1 ELSE al + MulDiv(x, S - al, S)
                 f == IF g.st.fill.t = "none" THEN a
                      ELSE lay(a, FillAt(g.edges, g.st.nz, p), Colour(g.st.fill, g.st.fo, "gg", FALSE, g.m, g.edges, p))
             IN IF g.st.line.t = "none" \/ g.st.lw = 0 THEN f
                ELSE lay(f, StrokeAt(g.outs, p), Colour(g.st.line, g.st.lo, "gg", TRUE, g.m, <<>>, p))
       IN FoldLeft(layer, 0, mk.layers)

\* ---- the whole picture
PreparePicture(pic, back) ==
  LET tm == OptTarget(pic.vb, pic.opts)
  IN TLCEval([i \in 1..Len(pic.paths) |->
       LET path == pic.paths[i]
           m == Mul(tm, path.st.t)
       IN [g |-> Prepare(path, m, back), mask |-> IF back = "gg" THEN PrepareMask(pic.masks, path.st.masks, m, {}) ELSE NoMask]])
PictureAt(layers, op, back, p) ==
  FoldLeft(LAMBDA v, l : Paint(v, l.g, op, back, p, MaskAlpha(l.mask, p)), White, layers)

\* ---- the calls of the draw2d back end: [k, ops, c, rule, lo, hi, cap, join, dash, doff]
\* (lo, hi: bounds of the line width).  What cannot be seen is left out.
MapOps(ops, m) == [i \in 1..Len(ops) |-> [k |-> ops[i].k, p |-> FoldLeft(LAMBDA a, j : a \o Apply(m, ops[i].p[2 * j - 1], ops[i].p[2 * j]), <<>>, [j \in 1..(Len(ops[i].p) \div 2) |-> j])]]
CallColour(pat, op) ==   \* <<r, g, b, a>>, negative when not specified
  CASE pat.t = "color" -> <<pat.c[1], pat.c[2], pat.c[3], RDiv(pat.c[4] * op, S)>>
    [] pat.t = "grad" /\ Uniform(pat) -> <<pat.stops[1].c[1], pat.stops[1].c[2], pat.stops[1].c[3], RDiv(255 * op, S)>>
    [] OTHER -> IF op = 0 THEN <<0, 0, 0, 0>> ELSE <<-1, -1, -1, -1>>
Calls(pic) ==
  LET tm == OptTarget(pic.vb, pic.opts)
      op == OptOpacity(pic.opts)
      one(path) ==
        LET st == path.st
            m == Mul(tm, st.t)
            ops == MapOps(path.ops, m)
            fc == CallColour(st.fill, MulDiv(st.fo, op, S))
            lc == CallColour(st.line, MulDiv(st.lo, op, S))
            lo == MulDiv(st.lw, ScaleLo(m), S)
            hi == MulDiv(st.lw, ScaleHi(m), S)
            sc == LineScale(m)
        IN (IF st.fill.t = "none" \/ fc[4] = 0 \/ ops = <<>> THEN <<>>
            ELSE <<[k |-> "fill", ops |-> ops, c |-> fc, rule |-> IF st.nz THEN "nonzero" ELSE "evenodd",
                    lo |-> 0, hi |-> 0, cap |-> {""}, join |-> {""}, dash |-> <<>>, doff |-> 0, sim |-> TRUE, big |-> ScaleHi(m)]>>)
           \o (IF st.line.t = "none" \/ lc[4] = 0 \/ hi = 0 \/ ops = <<>> THEN <<>>
               ELSE <<[k |-> "stroke", ops |-> ops, c |-> lc, rule |-> "", lo |-> lo, hi |-> hi,
                       cap |-> CASE st.tcap \in {"NilCap", "ButtCap"} -> {"cap"} [] st.tcap = "RoundCap" -> {"round"} [] st.tcap = "SquareCap" -> {"square"}
                                 [] OTHER -> {"cap", "round", "square"},
                       join |-> CASE st.join = "Round" -> {"round"} [] st.join = "Bevel" -> {"bevel"} [] st.join \in {"Miter", "MiterClip"} -> {"miter"}
                                  [] OTHER -> {"miter", "bevel", "round"},
                       dash |-> [i \in 1..Len(st.dash) |-> MulDiv(st.dash[i], sc, S)], doff |-> MulDiv(st.doff, sc, S), sim |-> Similar(m), big |-> ScaleHi(m)]>>)
  IN FoldLeft(LAMBDA a, path : a \o one(path), <<>>, pic.paths)
\* paint so thin that rounding decides whether it is seen
Faint(pic) ==
  LET op == OptOpacity(pic.opts)
      thin(p, o) == p.t # "none" /\ MulDiv(o, op, S) \in 1..80
  IN \E i \in 1..Len(pic.paths) : thin(pic.paths[i].st.fill, pic.paths[i].st.fo) \/ thin(pic.paths[i].st.line, pic.paths[i].st.lo)
Loud(call) == call.c[4] # 0 /\ call.ops # <<>> /\ (call.k = "fill" \/ call.lw # 0)
\* the differences between a call and what it should be
CallDiff(e, o) ==
  LET If(b, x) == IF b THEN {x} ELSE {}
      t == 3 + e.big \div 2048
      span == IF Len(e.ops) = 0 THEN 0 ELSE 3
      even(d) == IF Len(d) % 2 = 1 THEN d \o d ELSE d
      eo == even(o.dash)
  IN If(e.k # o.k, "kind")
     \cup If(Len(e.ops) # Len(o.ops) \/ \E i \in 1..Min2(Len(e.ops), Len(o.ops)) : e.ops[i].k # o.ops[i].k \/ ~NearSeq(e.ops[i].p, o.ops[i].p, t + span), "geometry")
     \cup If(e.c[4] > 0 /\ ~(Near(e.c[4], o.c[4], 2) /\ \A i \in 1..3 : Near(e.c[i], o.c[i], 1 + (IF o.c[4] < 40 THEN 4 ELSE 0))), "colour")
     \cup If(e.rule # o.rule, "rule")
     \cup (IF e.k # "stroke" \/ o.k # "stroke" THEN {}
           ELSE If(o.lw < e.lo - 3 - e.lo \div 100 \/ o.lw > e.hi + 3 + e.hi \div 100, "width")
                \cup If(o.cap \notin e.cap, "cap") \cup If(o.join \notin e.join, "join")
                \cup If(e.sim /\ (~(Len(eo) = Len(e.dash) /\ \A i \in 1..Len(e.dash) : Near(eo[i], e.dash[i], 3 + e.dash[i] \div 100)) 
                                  \/ (e.dash # <<>> /\ ~Near(o.doff, e.doff, 3 + Abs(e.doff) \div 100))), "dash")
                \cup If(~e.sim /\ Len(eo) # Len(e.dash), "dash"))
=============================================================================
