------------------------------- MODULE SvgText -------------------------------
(* From the text of attributes to the typed values of SvgDoc.  An attribute   *)
(* [k, v |-> [t |-> "text", cs]] carries the codes of its characters.         *)
EXTENDS SvgAgree, SvgLex

IsText(v) == v.t = "text"
LengthAttrs == {"x", "y", "width", "height", "rx", "ry", "cx", "cy", "r", "x1", "y1", "x2", "y2", "fx", "fy", "fr",
                "stroke-width", "stroke-dashoffset"}
FractionAttrs == {"opacity", "fill-opacity", "stroke-opacity", "stop-opacity", "offset"}

\* nothing is said about negative extents, nor about magnitudes the model does not compute with
Unsigned == {"width", "height", "rx", "ry", "r", "fr", "stroke-width"}
Round == {"rx", "ry", "r", "cx", "cy"}
LengthClass(k, l) ==
  IF l.class # "good" THEN l.class
  ELSE IF k \in Unsigned /\ l.n < 0 THEN "open"
  ELSE IF k \in {"rx", "ry", "r"} /\ l.u # "%" /\ l.n \in 1..(U - 1) THEN "open"
  ELSE IF Abs(l.n) > 9999 * U \/ Abs(Resolve(l, 500 * U)) > (IF k \in Round THEN 500 ELSE 30000) * U THEN "open"
  ELSE "good"
BadValue == [t |-> "bad"]
\* [class, v]
LexValue(k, cs) ==
  LET res(c, v) == [class |-> c, v |-> IF c = "good" THEN v ELSE BadValue]
  IN CASE k \in LengthAttrs -> LET l == Length(cs, U) IN res(LengthClass(k, l), [t |-> "len", n |-> l.n, u |-> l.u])
       [] k \in FractionAttrs -> LET f == Fractional(cs, S) IN res(f.class, [t |-> "num", n |-> f.n, pct |-> f.pct])
       [] k = "stroke-miterlimit" ->
            LET f == Fractional(cs, U) IN res(IF f.pct THEN "open" ELSE f.class, [t |-> "num", n |-> f.n, pct |-> FALSE])
       [] k \in {"points", "viewBox"} -> LET l == Numbers(cs, U) IN res(l.class, [t |-> "nums", a |-> l.a])
       [] k = "stroke-dasharray" -> LET d == DashTexts(cs) IN res(d.class, [t |-> "dash", a |-> d.a])
       [] k \in {"transform", "gradientTransform"} ->
            LET l == TransformList(cs)
            IN res(l.class, [t |-> "tf", a |-> l.a])
       [] k = "d" ->
            \* what precedes the malformed command has been interpreted, in the strict mode it may fail first
            LET p == PathData(cs)
            IN [class |-> p.class,
                v |-> [t |-> "path", a |-> IF p.class = "bad" THEN Append(p.a, [c |-> "!", rel |-> FALSE, a |-> <<>>, w |-> <<>>])
                                           ELSE p.a]]

LexDecl(d) == IF IsText(d.v) THEN [d EXCEPT !.v = LexValue(d.k, d.v.cs).v] ELSE d
LexEvent(ev) == IF ev.e # "open" THEN ev
                ELSE [ev EXCEPT !.at = [i \in 1..Len(ev.at) |-> LexDecl(ev.at[i])],
                                !.sty = [i \in 1..Len(ev.sty) |-> LexDecl(ev.sty[i])]]
OpenText(ev) == ev.e = "open" /\ \E i \in 1..(Len(ev.at) + Len(ev.sty)) :
                  LET d == (ev.at \o ev.sty)[i] IN IsText(d.v) /\ LexValue(d.k, d.v.cs).class = "open"
=============================================================================
