----------------------------- MODULE JudgePaint -----------------------------
(* Validation of painted pictures.  A case is [id, back, pic, pts, px] or,    *)
(* for draw2d, [id, back, pic, calls], or for the options alone               *)
(* [id, back = "options", pic, target, opacity].                              *)
EXTENDS SvgPaint, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done

RECURSIVE Listed(_)
Listed(d) == IF d = {} THEN "" ELSE LET x == CHOOSE x \in d : TRUE IN x \o "," \o Listed(d \ {x})
Agree(v, px) == \A i \in 1..3 : Abs(v.c[i] - 16 * px[i]) <= 32 + v.e
Pixels(k) ==
  LET layers == PreparePicture(k.pic, k.back)
      op == OptOpacity(k.pic.opts)
      val == TLCEval([i \in 1..Len(k.pts) |-> PictureAt(layers, op, k.back, <<k.pts[i][1] * U + 32, k.pts[i][2] * U + 32>>)])
      sure == {i \in 1..Len(k.pts) : val[i].ok}
      bad == {i \in sure : ~Agree(val[i], k.px[i])}
      show(i) == ToString(k.pts[i][1]) \o ":" \o ToString(k.pts[i][2]) \o " is " \o ToString(k.px[i]) \o " not " \o ToString([j \in 1..3 |-> val[i].c[j] \div 16])
  IN <<IF bad = {} THEN "" ELSE "pixel " \o show(CHOOSE i \in bad : \A j \in bad : i <= j), Cardinality(sure), Cardinality(bad)>>
Compare(k) ==
  LET e == Calls(k.pic)
      o == SelectSeq(k.calls, Loud)
      n == Min2(Len(e), Len(o))
      diffs == {i \in 1..n : CallDiff(e[i], o[i]) # {}}
  IN IF Faint(k.pic) THEN <<"", 0, 0>>
     ELSE IF Len(e) # Len(o) THEN <<"calls: " \o ToString(Len(o)) \o " not " \o ToString(Len(e)), n, 1>>
     ELSE IF diffs = {} THEN <<"", n, 0>>
     ELSE LET i == CHOOSE i \in diffs : \A j \in diffs : i <= j IN <<"call " \o ToString(i) \o ": " \o Listed(CallDiff(e[i], o[i])), n, Cardinality(diffs)>>
Choices(k) ==
  LET m == OptTarget(k.pic.vb, k.pic.opts)
  IN <<IF ~MatrixNear(m, k.target) THEN "target " \o ToString(k.target) \o " not " \o ToString(m)
       ELSE IF ~Near(k.opacity, OptOpacity(k.pic.opts), 1) THEN "opacity " \o ToString(k.opacity) ELSE "", 1, 0>>
\* where the corners of the view box land, without any matrix: on the corners of the rectangle that was asked for last
Corners(k) ==
  LET vb == k.pic.vb
      ts == SelectSeq(k.pic.opts, LAMBDA o : o.k = "target")
      r == IF ts = <<>> THEN vb ELSE ts[Len(ts)].v
      w == IF vb[3] = 0 THEN 0 ELSE r[3]
      h == IF vb[4] = 0 THEN 0 ELSE r[4]
      e == <<r[1], r[2], r[1] + w, r[2], r[1], r[2] + h, r[1] + w, r[2] + h>>
  IN <<IF Len(k.corners) # 8 \/ \E i \in 1..8 : ~Near(e[i], k.corners[i], 1) THEN "corners " \o ToString(k.corners) \o " not " \o ToString(e)
       ELSE IF ~Near(k.opacity, OptOpacity(k.pic.opts), 1) THEN "opacity " \o ToString(k.opacity) ELSE "", 1, 0>>
Verdict(k) == CASE k.back = "draw2d" -> Compare(k) [] k.back = "corners" -> Corners(k) [] k.back = "options" -> Choices(k) [] OTHER -> Pixels(k)
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ LET v == Verdict(Cases[c]) IN PrintT("V|" \o ToString(Cases[c].id) \o "|" \o v[1] \o "|" \o ToString(v[2]) \o "|" \o ToString(v[3]))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
