------------------------------- MODULE SvgKit -------------------------------
(* The helpers for painting drivers as a state machine.  The state is a path  *)
(* under construction, a gradient g that is worked on and the gradient keep   *)
(* it was copied from; every call has a result.                               *)
(*  calls  [k |-> "start" | "line" | "quad" | "cube", p |-> points in 1/U]    *)
(*         [k |-> "stop", n |-> 0 or 1]  [k |-> "clear"]                      *)
(*         [k |-> "extent", p |-> <<minx, miny, maxx, maxy>> in 1/U]          *)
(*         [k |-> "copy"]  the gradient is replaced by the one it came from   *)
(*         [k |-> "units", n |-> 0 or 1]  another choice of units             *)
(*         [k |-> "colour", n |-> which]  the colour that stands for nothing  *)
(*             (0), a plain colour (1) or the gradient (2)                    *)
(*         [k |-> "name", n |-> number of a mode, w |-> "join" "cap" "gap"]   *)
EXTENDS SvgMatrix

Black == <<0, 0, 0, 255>>
PlainOne == <<18, 52, 86, 255>>
Joins == <<"Arc", "Round", "Bevel", "Miter", "MiterClip", "ArcClip">>
Caps == <<"NilCap", "ButtCap", "SquareCap", "RoundCap", "CubicCap", "QuadraticCap">>
Gaps == <<"NilGap", "FlatGap", "RoundGap", "CubicGap", "QuadraticGap">>
NameOf(w, n) == LET l == CASE w = "join" -> Joins [] w = "cap" -> Caps [] OTHER -> Gaps
                IN IF n < Len(l) THEN l[n + 1] ELSE ""      \* other numbers have no name of their own

RECURSIVE FirstColour(_)
FirstColour(stops) == IF stops = <<>> THEN Black
                      ELSE IF Head(stops).c # <<>> THEN Head(stops).c ELSE FirstColour(Tail(stops))
Kinds == [start |-> "M", line |-> "L", quad |-> "Q", cube |-> "C"]

\* bounds and matrix of a gradient for a path with the extent e; a length of
\* one pixel is S / U steps of a factor
BoxUnits(g) == g.units = 0
ExtentBounds(g, e) == IF BoxUnits(g) THEN <<e[1], e[2], e[3] - e[1], e[4] - e[2]>> ELSE g.b
ExtentMatrix(g, e) == IF BoxUnits(g) THEN Mul(Scaling((e[3] - e[1]) * (S \div U), (e[4] - e[2]) * (S \div U)), g.m) ELSE g.m

Start0(g) == [path |-> <<>>, g |-> g, keep |-> g, res |-> <<>>]
Call(s, c) ==
  CASE c.k \in DOMAIN Kinds -> [s EXCEPT !.path = Append(@, [k |-> Kinds[c.k], p |-> c.p]), !.res = <<>>]
    [] c.k = "stop" -> [s EXCEPT !.path = IF c.n = 1 THEN Append(@, [k |-> "Z", p |-> <<>>]) ELSE @, !.res = <<>>]
    [] c.k = "clear" -> [s EXCEPT !.path = <<>>, !.res = <<>>]
    [] c.k = "extent" -> [s EXCEPT !.g = [@ EXCEPT !.b = ExtentBounds(s.g, c.p)], !.res = ExtentMatrix(s.g, c.p)]
    [] c.k = "copy" -> [s EXCEPT !.g = s.keep, !.res = <<>>]
    [] c.k = "units" -> [s EXCEPT !.g = [@ EXCEPT !.units = c.n], !.res = <<>>]
    [] c.k = "colour" -> [s EXCEPT !.res = CASE c.n = 0 -> Black [] c.n = 1 -> PlainOne [] OTHER -> FirstColour(s.g.stops)]
    [] c.k = "name" -> [s EXCEPT !.res = <<NameOf(c.w, c.n)>>]
=============================================================================
