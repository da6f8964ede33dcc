------------------------------ MODULE SvgShape ------------------------------
(* Outlines of the basic shapes and of path elements, from typed attributes.  *)
EXTENDS SvgPath, SvgStyle

Has(at, k) == \E i \in 1..Len(at) : at[i].k = k
Get(at, k) == at[CHOOSE i \in 1..Len(at) : at[i].k = k /\ \A j \in (i + 1)..Len(at) : at[j].k # k].v
Str(at, k) == IF Has(at, k) THEN Get(at, k).s ELSE ""
Lengths == [rect |-> <<"x", "y", "width", "height", "rx", "ry">>, circle |-> <<"cx", "cy", "r">>,
            ellipse |-> <<"cx", "cy", "rx", "ry">>, line |-> <<"x1", "y1", "x2", "y2">>,
            use |-> <<"x", "y">>, mask |-> <<"x", "y", "width", "height">>]
DirOf(k) == IF k \in {"x", "width", "rx", "cx", "x1", "x2"} THEN "x"
            ELSE IF k \in {"y", "height", "ry", "cy", "y1", "y2"} THEN "y" ELSE "d"
BadLength(tag, at) == tag \in DOMAIN Lengths /\ \E i \in 1..Len(Lengths[tag]) :
                        Has(at, Lengths[tag][i]) /\ Get(at, Lengths[tag][i]).t = "bad"
Val(at, k, vb) == IF Has(at, k) THEN Resolve(Get(at, k), Ref(DirOf(k), vb)) ELSE 0
IsZero(at, k, vb) == Val(at, k, vb) = 0

Drawn(items) == [ops |-> items, err |-> FALSE, warn |-> 0]
Failed == [ops |-> <<>>, err |-> TRUE, warn |-> 0]

RectItems(at, vb) ==
  LET x == Val(at, "x", vb) y == Val(at, "y", vb)
      w == Val(at, "width", vb) h == Val(at, "height", vb)
      rx0 == IF Has(at, "rx") THEN Val(at, "rx", vb) ELSE Val(at, "ry", vb)
      ry0 == IF Has(at, "ry") THEN Val(at, "ry", vb) ELSE Val(at, "rx", vb)
      rx == Min2(rx0, w \div 2) ry == Min2(ry0, h \div 2)
  IN IF IsZero(at, "width", vb) \/ IsZero(at, "height", vb) THEN <<>>
     ELSE IF rx = 0 \/ ry = 0
     THEN << [k |-> "M", p |-> <<x, y>>], [k |-> "L", p |-> <<x + w, y>>],
             [k |-> "L", p |-> <<x + w, y + h>>], [k |-> "L", p |-> <<x, y + h>>], [k |-> "Z", p |-> <<>>] >>
     ELSE << [k |-> "RR", b |-> <<x, y, w, h, rx, ry>>] >>

Points(v) == [i \in 1..(Len(v.a) \div 2) |-> [k |-> IF i = 1 THEN "M" ELSE "L",
                                              p |-> <<v.a[2 * i - 1], v.a[2 * i]>>]]
Closed(items) == IF items = <<>> THEN items ELSE Append(items, [k |-> "Z", p |-> <<>>])

Outline(tag, at, vb) ==
  IF BadLength(tag, at) THEN Failed
  ELSE CASE tag = "rect" -> Drawn(RectItems(at, vb))
         [] tag = "circle" ->
              IF IsZero(at, "r", vb) THEN Drawn(<<>>)
              ELSE Drawn(<< [k |-> "EL", c |-> <<Val(at, "cx", vb), Val(at, "cy", vb)>>,
                             r |-> <<Val(at, "r", vb), Val(at, "r", vb)>>] >>)
         [] tag = "ellipse" ->
              IF IsZero(at, "rx", vb) \/ IsZero(at, "ry", vb) THEN Drawn(<<>>)
              ELSE Drawn(<< [k |-> "EL", c |-> <<Val(at, "cx", vb), Val(at, "cy", vb)>>,
                             r |-> <<Val(at, "rx", vb), Val(at, "ry", vb)>>] >>)
         [] tag = "line" ->
              Drawn(<< [k |-> "M", p |-> <<Val(at, "x1", vb), Val(at, "y1", vb)>>],
                       [k |-> "L", p |-> <<Val(at, "x2", vb), Val(at, "y2", vb)>>] >>)
         [] tag \in {"polyline", "polygon"} ->
              IF ~Has(at, "points") THEN Drawn(<<>>)
              ELSE LET v == Get(at, "points")
                   IN IF v.t = "bad" \/ Len(v.a) % 2 = 1 THEN Failed
                      ELSE IF Len(v.a) < 4 THEN Drawn(<<>>)
                      ELSE Drawn(IF tag = "polygon" THEN Closed(Points(v)) ELSE Points(v))
         [] tag = "path" ->
              IF ~Has(at, "d") THEN Drawn(<<>>)
              ELSE LET r == Interp(Get(at, "d").a)
                   IN [ops |-> r.out, err |-> r.err, warn |-> r.warn]
         [] OTHER -> Drawn(<<>>)
=============================================================================
