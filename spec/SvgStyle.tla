------------------------------ MODULE SvgStyle ------------------------------
(* Lengths, paints, gradients and the style cascade.                          *)
(* A declaration is [k |-> property, v |-> value]; the kind of a value is v.t *)
(* and t = "bad" stands for any text that is not a value of the property.     *)
EXTENDS SvgMatrix, SvgColorNames

\* value of a length [t |-> "len", n, u] in 1/U; n counts 1/U of the unit.
\* ref is what a percentage refers to, in 1/U.
Diag(vb) ==
  LET k == IF Abs(vb[3]) <= 32000 /\ Abs(vb[4]) <= 32000 THEN 1
           ELSE (Max2(Abs(vb[3]), Abs(vb[4])) \div 32000) + 1
      w == vb[3] \div k
      h == vb[4] \div k
  IN k * ISqrt((w * w + h * h) \div 2)
Ref(dir, vb) == CASE dir = "x" -> vb[3] [] dir = "y" -> vb[4] [] OTHER -> Diag(vb)
Resolve(v, ref) ==
  CASE v.u \in {"", "px"} -> v.n
    [] v.u = "in" -> v.n * 96
    [] v.u = "cm" -> RDiv(v.n * 4800, 127)
    [] v.u = "mm" -> RDiv(v.n * 480, 127)
    [] v.u = "Q" -> RDiv(v.n * 120, 127)
    [] v.u = "pt" -> RDiv(v.n * 4, 3)
    [] v.u = "pc" -> v.n * 16
    [] v.u = "%" -> MulDiv(v.n, ref, 100 * U)

Black == <<0, 0, 0>>
None == [t |-> "none"]
Plain(c) == [t |-> "color", c |-> c]
KeywordColor(s) == Keywords[CHOOSE i \in 1..Len(Keywords) : Keywords[i].s = s].c
ColorValue(v) == CASE v.t = "rgb" -> v.c [] v.t = "name" -> KeywordColor(v.s)

DefaultStyle ==
  [fo |-> S, lo |-> S, lw |-> 2 * U, nz |-> TRUE, ml |-> 4 * U, join |-> "Bevel",
   tcap |-> "ButtCap", lcap |-> "NilCap", gap |-> "NilGap", dash |-> <<>>, doff |-> 0,
   fill |-> Plain(Black), line |-> None, masks |-> <<>>, t |-> Id]

\* the colour of a paint, for stops that declare none
PaintColor(p) == CASE p.t = "color" -> p.c
                   [] p.t = "grad" -> IF p.g.stops = <<>> THEN Black ELSE p.g.stops[1].c
                   [] OTHER -> Black
\* a gradient as seen from a place where the paint p is in force
Bind(g, p) == [t |-> "grad",
               g |-> [g EXCEPT !.stops = [i \in 1..Len(g.stops) |->
                        IF g.stops[i].has THEN g.stops[i]
                        ELSE [g.stops[i] EXCEPT !.c = PaintColor(p)]]]]
Paint(v, grads, inherited) ==
  CASE v.t = "none" -> None
    [] v.t \in {"rgb", "name"} -> Plain(ColorValue(v))
    [] v.t = "url" -> IF v.id \in DOMAIN grads THEN Bind(grads[v.id], inherited) ELSE Plain(Black)

Rules == [evenodd |-> FALSE, nonzero |-> TRUE]
Joins == [miter |-> "Miter", round |-> "Round", arc |-> "Arc", bevel |-> "Bevel"]
         @@ ("miter-clip" :> "MiterClip") @@ ("arc-clip" :> "ArcClip")
Caps == [butt |-> "ButtCap", round |-> "RoundCap", square |-> "SquareCap", cubic |-> "CubicCap",
         quadratic |-> "QuadraticCap"]
Gaps == [flat |-> "FlatGap", round |-> "RoundGap", cubic |-> "CubicGap", quadratic |-> "QuadraticGap"]
Keyworded == ("fill-rule" :> DOMAIN Rules) @@ ("stroke-linejoin" :> DOMAIN Joins)
             @@ ("stroke-linecap" :> DOMAIN Caps) @@ ("stroke-leadlinecap" :> DOMAIN Caps)
             @@ ("stroke-linegap" :> DOMAIN Gaps)

Fraction(v) == Clamp(IF v.pct THEN RDiv(v.n, 100) ELSE v.n, 0, S)
\* the dash list, doubled if odd; no dashes if they are all zero
DashList(v, vb) ==
  LET d == [i \in 1..Len(v.a) |-> Resolve(v.a[i], Diag(vb))]
      pos == \E i \in 1..Len(d) : d[i] > 0
  IN IF ~pos THEN <<>> ELSE IF Len(d) % 2 = 1 THEN d \o d ELSE d

Properties == {"fill", "stroke", "fill-rule", "stroke-linejoin", "stroke-linecap", "stroke-leadlinecap",
               "stroke-linegap", "stroke-miterlimit", "stroke-width", "stroke-dashoffset",
               "stroke-dasharray", "opacity", "fill-opacity", "stroke-opacity", "transform", "mask"}

\* One declaration.  r is [s, err, warn]; base is the style of the parent.
Declare(r, d, base, vb, grads) ==
  LET v == d.v
      s == r.s
      ok(t) == [r EXCEPT !.s = t]
      fail == [r EXCEPT !.err = TRUE]
  IN IF r.err \/ d.k \notin Properties THEN r
     ELSE IF v.t = "bad" THEN fail
     ELSE IF d.k \in DOMAIN Keyworded /\ v.s \notin Keyworded[d.k] THEN [r EXCEPT !.warn = @ + 1]
     ELSE CASE d.k = "fill" -> ok([s EXCEPT !.fill = Paint(v, grads, base.fill)])
            [] d.k = "stroke" -> ok([s EXCEPT !.line = Paint(v, grads, base.line)])
            [] d.k = "fill-rule" -> ok([s EXCEPT !.nz = Rules[v.s]])
            [] d.k = "stroke-linejoin" -> ok([s EXCEPT !.join = Joins[v.s]])
            [] d.k = "stroke-linecap" -> ok([s EXCEPT !.tcap = Caps[v.s]])
            [] d.k = "stroke-leadlinecap" -> ok([s EXCEPT !.lcap = Caps[v.s]])
            [] d.k = "stroke-linegap" -> ok([s EXCEPT !.gap = Gaps[v.s]])
            [] d.k = "stroke-miterlimit" -> ok([s EXCEPT !.ml = v.n])
            [] d.k = "stroke-width" -> ok([s EXCEPT !.lw = Resolve(v, Diag(vb))])
            [] d.k = "stroke-dashoffset" -> ok([s EXCEPT !.doff = Resolve(v, Diag(vb))])
            [] d.k = "stroke-dasharray" ->
                 IF v.t = "none" THEN ok([s EXCEPT !.dash = <<>>])
                 ELSE IF \E i \in 1..Len(v.a) : v.a[i].n < 0 THEN fail
                 ELSE ok([s EXCEPT !.dash = DashList(v, vb)])
            [] d.k = "opacity" -> ok([s EXCEPT !.fo = MulDiv(@, Fraction(v), S), !.lo = MulDiv(@, Fraction(v), S)])
            [] d.k = "fill-opacity" -> ok([s EXCEPT !.fo = MulDiv(@, Fraction(v), S)])
            [] d.k = "stroke-opacity" -> ok([s EXCEPT !.lo = MulDiv(@, Fraction(v), S)])
            [] d.k = "transform" ->
                 IF ListOK(v.a) THEN ok([s EXCEPT !.t = ListMatrix(base.t, v.a)]) ELSE fail
            [] d.k = "mask" -> IF v.t = "none" THEN r ELSE ok([s EXCEPT !.masks = Append(@, v.id)])

\* attributes, then inline declarations; of several for one property the last counts
Effective(at, sty) ==
  LET all == at \o sty
      lastOf(i) == \A j \in (i + 1)..Len(all) : all[j].k # all[i].k
      idx == {i \in 1..Len(all) : lastOf(i)}
  IN [i \in 1..Len(all) |-> [all[i] EXCEPT !.k = IF i \in idx THEN @ ELSE "-"]]

RECURSIVE DeclareAll(_, _, _, _, _, _)
DeclareAll(r, ds, i, base, vb, grads) ==
  IF i > Len(ds) THEN r ELSE DeclareAll(Declare(r, ds[i], base, vb, grads), ds, i + 1, base, vb, grads)
Cascade(base, at, sty, vb, grads) ==
  DeclareAll([s |-> base, err |-> FALSE, warn |-> 0], Effective(at, sty), 1, base, vb, grads)
=============================================================================
