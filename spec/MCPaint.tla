------------------------------ MODULE MCPaint -------------------------------
(* All short pictures: words over an alphabet of paths, drawn with one of     *)
(* several lists of options onto one back end.  The canvas is the value of    *)
(* the sample points.  Words are printed for replay; the laws are checked on  *)
(* every one of them.                                                         *)
EXTENDS SvgPaint, Json, IOUtils

Conf == ndJsonDeserialize(IOEnv.ALPHABET)[1]
Back == Conf.back
Kinds == 1..Len(Conf.kinds)
Opts == 1..Len(Conf.opts)
Pts == 1..Len(Conf.pts)
At(i) == <<Conf.pts[i][1] * U + 32, Conf.pts[i][2] * U + 32>>
Pic(o, w) == [vb |-> Conf.vb, opts |-> Conf.opts[o], paths |-> [i \in 1..Len(w) |-> Conf.kinds[w[i]]], masks |-> Conf.masks]
Pixels == Back # "draw2d"

\* everything about one kind under one list of options
Sheet(o, k) ==
  LET l == PreparePicture(Pic(o, <<k>>), Back)[1]
      st == Conf.kinds[k].st
      op == OptOpacity(Conf.opts[o])
  IN TLCEval([i \in Pts |->
       [f |-> IF st.fill.t = "none" THEN Out ELSE FillAt(l.g.edges, st.nz, At(i)),
        s |-> StrokeAt(l.g.outs, At(i)),
        fc |-> Colour(st.fill, MulDiv(st.fo, op, S), Back, FALSE, l.g.m, l.g.edges, At(i)),
        sc |-> Colour(st.line, MulDiv(st.lo, op, S), Back, TRUE, l.g.m, <<>>, At(i)),
        mk |-> MaskAlpha(l.mask, At(i))]])
AllSheets == IF Pixels THEN TLCEval([o \in Opts |-> TLCEval([k \in Kinds |-> Sheet(o, k)])]) ELSE <<>>
AllCalls == TLCEval([o \in Opts |-> TLCEval([k \in Kinds |-> Calls(Pic(o, <<k>>))])])
\* computed once
ASSUME TLCSet(11, AllSheets) /\ TLCSet(12, AllCalls)
Sheets == TLCGet(11)
CallsOf == TLCGet(12)

VARIABLES o, word, canvas, calls
vars == <<o, word, canvas, calls>>
Lay(v, q) == Over(Over(v, q.f, q.fc, q.mk), q.s, q.sc, q.mk)
Init == o \in Opts /\ word = <<>> /\ canvas = [i \in Pts |-> White] /\ calls = <<>>
Next == /\ Len(word) < Conf.depth
        /\ \E k \in Kinds :
             /\ word' = Append(word, k)
             /\ canvas' = IF Pixels THEN TLCEval([i \in Pts |-> Lay(canvas[i], Sheets[o][k][i])]) ELSE canvas
             /\ calls' = IF Pixels THEN calls ELSE calls \o CallsOf[o][k]
        /\ UNCHANGED o
Spec == Init /\ [][Next]_vars

RECURSIVE Code(_)
Code(w) == IF w = <<>> THEN "" ELSE ToString(Head(w)) \o "," \o Code(Tail(w))
Printed == word # <<>> => PrintT("W|paint|" \o ToString(o) \o ":" \o Code(word))
-----------------------------------------------------------------------------
(* Laws                                                                       *)
\* painting path by path gives the picture
Whole == IF Pixels
         THEN Len(word) <= Conf.whole => LET ls == PreparePicture(Pic(o, word), Back)
                                         IN \A i \in Pts : canvas[i] = PictureAt(ls, OptOpacity(Conf.opts[o]), Back, At(i))
         ELSE calls = Calls(Pic(o, word))
Shown(k) == LET st == Conf.kinds[k].st IN st.fill.t # "none" \/ (st.line.t # "none" /\ st.lw > 0)
\* the state of the canvas changes only where the new path is, and not at all if it is invisible
Local == [][word' # word =>
            LET k == Last(word') IN
            /\ ~Shown(k) => canvas' = canvas /\ calls' = calls
            /\ Pixels => \A i \in Pts : LET q == Sheets[o][k][i] IN
                 /\ ((q.f = Out /\ q.s = Out) \/ q.mk = 0) => canvas'[i] = canvas[i]
                 \* an opaque stroke hides its own fill and everything before
                 /\ (q.s = In /\ q.sc.ok /\ q.sc.a = S /\ q.mk = S) => canvas'[i].ok /\ canvas'[i].c = q.sc.c
                 /\ (q.s = Out /\ q.f = In /\ q.fc.ok /\ q.fc.a = S /\ q.mk = S) => canvas'[i].ok /\ canvas'[i].c = q.fc.c]_vars
\* what is inside by the even-odd rule is inside by the nonzero rule
Rules == \A k \in Kinds : \A i \in Pts :
           LET es == FillEdges(Flat(Conf.kinds[k].ops, Mul(OptTarget(Conf.vb, Conf.opts[o]), Conf.kinds[k].st.t)))
           IN FillAt(es, FALSE, At(i)) = In => FillAt(es, TRUE, At(i)) = In
\* a dashed line lies within the solid one
Solid == \A k \in Kinds : Pixels /\ Conf.kinds[k].st.dash # <<>> =>
           LET path == [Conf.kinds[k] EXCEPT !.st.dash = <<>>, !.st.tcap = "SquareCap", !.st.lcap = "NilCap"]
               g == Prepare(path, Mul(OptTarget(Conf.vb, Conf.opts[o]), path.st.t), Back)
           IN \A i \in Pts : Sheets[o][k][i].s = In => StrokeAt(g.outs, At(i)) # Out
\* the order of the options does not matter
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Order == \A a, b \in Opts : Conf.opts[a] = Rev(Conf.opts[b]) =>
           OptTarget(Conf.vb, Conf.opts[a]) = OptTarget(Conf.vb, Conf.opts[b]) /\ OptOpacity(Conf.opts[a]) = OptOpacity(Conf.opts[b])
\* the corners of the view box land on the corners of the target
Corners == \A i \in 1..Len(Conf.opts[o]) : Conf.opts[o][i].k = "target" =>
             LET r == Conf.opts[o][i].v  v == Conf.vb  m == OptTarget(v, Conf.opts[o])
                 a == Apply(m, v[1], v[2])  b == Apply(m, v[1] + v[3], v[2] + v[4])
             IN /\ Near(a[1], r[1], 2) /\ Near(a[2], r[2], 2)
                /\ (v[3] # 0 => Near(b[1], r[1] + r[3], 4)) /\ (v[4] # 0 => Near(b[2], r[2] + r[4], 4))
Once == word = <<>> => Rules /\ Solid /\ Order /\ Corners
=============================================================================
