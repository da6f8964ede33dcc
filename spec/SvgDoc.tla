------------------------------- MODULE SvgDoc -------------------------------
(* The parser as a state machine over XML events.                             *)
(*   [e |-> "open", tag, at, sty]   an element with attributes and inline style*)
(*   [e |-> "close"]   [e |-> "text", s]   [e |-> "bad"]  (not well-formed)    *)
(* One transition consumes one event, or one recorded event of a definition   *)
(* that is being expanded by use.                                             *)
EXTENDS SvgShape

Shapes == {"rect", "circle", "ellipse", "line", "polyline", "polygon", "path"}
Gradients == {"linearGradient", "radialGradient"}
Known == Shapes \cup Gradients \cup {"svg", "g", "stop", "desc", "defs", "title", "mask", "use"}

NoGrad == [kind |-> "-", dir |-> <<>>, stops |-> <<>>, m |-> Id, spread |-> 0, units |-> 0]

(* A frame of the element stack.  Mode m:                                     *)
(*   "live"  executed        "defs"  a defs section                           *)
(*   "rec"   recorded as part of a definition, not executed                   *)
(*   "mute"  title or desc of a used definition    "skip"  defs of a used one *)
Frame(tag, m, s, id) == [tag |-> tag, m |-> m, s |-> s, id |-> id, rec |-> <<>>,
                         paths |-> <<>>, geo |-> <<0, 0, 0, 0>>, grad |-> NoGrad, at |-> 0]

Start(mode) == [mode |-> mode, stack |-> <<>>, agenda |-> <<>>, using |-> <<>>,
                defs |-> <<>>, grads |-> <<>>, masks |-> <<>>, paths |-> <<>>,
                titles |-> <<>>, descs |-> <<>>, vb |-> <<0, 0, 0, 0>>, w |-> "", h |-> "",
                sized |-> FALSE, seen |-> FALSE, warns |-> 0, err |-> FALSE]

Fail(st) == [st EXCEPT !.err = TRUE, !.agenda = <<>>]
\* n unsupported things were skipped
Skip(st, n) == IF n = 0 THEN st
               ELSE IF st.mode = "strict" THEN Fail(st)
               ELSE [st EXCEPT !.warns = @ + n]
TopStyle(st) == IF st.stack = <<>> THEN DefaultStyle ELSE Last(st.stack).s
TopMode(st) == IF st.stack = <<>> THEN "live" ELSE Last(st.stack).m
SetTop(st, f) == [st EXCEPT !.stack[Len(st.stack)] = f]
InDefs(st) == \E i \in 1..Len(st.stack) : st.stack[i].m \in {"defs", "rec"}

\* index of the innermost open mask, 0 if there is none
OpenMask(st) == LET is == {i \in 1..Len(st.stack) : st.stack[i].tag = "mask" /\ st.stack[i].m = "live"}
                IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i
Draw(st, ops) ==
  LET p == [ops |-> ops, st |-> TopStyle(st)]
      k == OpenMask(st)
  IN IF ops = <<>> THEN st
     ELSE IF k > 0 THEN [st EXCEPT !.stack[k].paths = Append(@, p)]
     ELSE [st EXCEPT !.paths = Append(@, p)]

-----------------------------------------------------------------------------
(* Gradients.  Coordinates are kept in 1/S.                                   *)
Coord(v, ref, user) ==
  IF v.u = "%" THEN (IF user THEN RDiv(v.n * ref, 100) ELSE RDiv(v.n * S, 100 * U))
  ELSE Resolve(v, 0) * (S \div U)
Pct(n) == [t |-> "len", n |-> n * U, u |-> "%"]
GradientOf(tag, at, vb) ==
  LET units == IF Has(at, "gradientUnits") /\ Get(at, "gradientUnits").s = "userSpaceOnUse" THEN 1 ELSE 0
      spread == IF ~Has(at, "spreadMethod") THEN 0
                ELSE CASE Get(at, "spreadMethod").s = "reflect" -> 1
                       [] Get(at, "spreadMethod").s = "repeat" -> 2
                       [] OTHER -> 0
      val(k, def) == IF Has(at, k) THEN Get(at, k) ELSE def
      co(v, dir) == Coord(v, Ref(dir, vb), units = 1)
      cx == val("cx", Pct(50)) cy == val("cy", Pct(50))
      dir == IF tag = "linearGradient"
             THEN << co(val("x1", Pct(0)), "x"), co(val("y1", Pct(0)), "y"),
                     co(val("x2", Pct(100)), "x"), co(val("y2", Pct(0)), "y") >>
             ELSE << co(cx, "x"), co(cy, "y"), co(val("fx", cx), "x"), co(val("fy", cy), "y"),
                     co(val("r", Pct(50)), "d"), co(val("fr", Pct(0)), "d") >>
  IN [kind |-> IF tag = "linearGradient" THEN "lin" ELSE "rad", dir |-> dir, stops |-> <<>>,
      m |-> IF Has(at, "gradientTransform") THEN ListMatrix(Id, Get(at, "gradientTransform").a) ELSE Id,
      spread |-> spread, units |-> units]
GradAttrs == {"x1", "y1", "x2", "y2", "cx", "cy", "fx", "fy", "r", "fr"}
GradientBad(at) ==
  \/ \E i \in 1..Len(at) : at[i].k \in GradAttrs /\ at[i].v.t = "bad"
  \/ Has(at, "gradientTransform") /\ (Get(at, "gradientTransform").t = "bad" \/ ~ListOK(Get(at, "gradientTransform").a))

\* the number of unsupported keywords of a gradient
GradientWords == [gradientUnits |-> {"userSpaceOnUse", "objectBoundingBox"}, spreadMethod |-> {"pad", "reflect", "repeat"}]
GradientSkips(at) == Cardinality({k \in DOMAIN GradientWords : Has(at, k) /\ Str(at, k) \notin GradientWords[k]})

\* a stop: inline declarations win over attributes
StopOf(at, sty) ==
  LET all == at \o sty
      col == IF Has(all, "stop-color") THEN Get(all, "stop-color") ELSE [t |-> "-"]
      off == IF Has(at, "offset") THEN Get(at, "offset") ELSE [n |-> 0, pct |-> FALSE]
  IN [off |-> IF off.pct THEN RDiv(off.n, 100) ELSE off.n,
      op |-> IF Has(all, "stop-opacity") THEN Fraction(Get(all, "stop-opacity")) ELSE S,
      has |-> col.t # "-", c |-> IF col.t = "-" THEN Black ELSE ColorValue(col)]
StopBad(at, sty) ==
  LET all == at \o sty
  IN \E k \in {"offset", "stop-color", "stop-opacity"} : Has(all, k) /\ Get(all, k).t = "bad"

-----------------------------------------------------------------------------
(* Opening an element                                                         *)
SvgOpen(st, at) ==
  IF st.sized THEN st
  ELSE LET bad(k) == Has(at, k) /\ Get(at, k).t = "bad"
           num(k) == IF Has(at, k) THEN Resolve(Get(at, k).l, 0) ELSE 0
           vb == IF Has(at, "viewBox") THEN Get(at, "viewBox").a ELSE <<0, 0, 0, 0>>
       IN IF bad("viewBox") \/ bad("width") \/ bad("height") \/ Len(vb) # 4 THEN Fail(st)
          ELSE [st EXCEPT !.sized = TRUE, !.w = Str(at, "width"), !.h = Str(at, "height"),
                  !.vb = <<vb[1], vb[2], IF vb[3] = 0 THEN num("width") ELSE vb[3],
                           IF vb[4] = 0 THEN num("height") ELSE vb[4]>>]

UseOpen(st, at) ==
  LET f == Last(st.stack)
      t == Mul(f.s.t, Translation(Val(at, "x", st.vb), Val(at, "y", st.vb)))
      id == Str(at, "href")
  IN IF BadLength("use", at) \/ id = "" \/ id \notin DOMAIN st.defs THEN Fail(st)
     ELSE IF \E i \in 1..Len(st.using) : st.using[i] = id THEN Fail(st)      \* refers to itself
     ELSE [SetTop(st, [f EXCEPT !.s.t = t]) EXCEPT
             !.using = Append(@, id),
             !.agenda = st.defs[id] \o << [e |-> "enduse"] >> \o @]

MaskOpen(st, at) ==
  IF BadLength("mask", at) \/ (Has(at, "id") /\ Str(at, "id") = "") THEN Fail(st)
  ELSE SetTop(st, [Last(st.stack) EXCEPT !.s.t = Id,
                     !.geo = [i \in 1..4 |-> Val(at, Lengths.mask[i], st.vb)]])

StopOpen(st, at, sty) ==
  LET n == Len(st.stack) - 1
  IN IF n = 0 \/ st.stack[n].tag \notin Gradients THEN st
     ELSE IF StopBad(at, sty) THEN Fail(st)
     ELSE [st EXCEPT !.stack[n].grad.stops = Append(@, StopOf(at, sty))]

\* the effect of an executed element, whose frame is on top
Execute(st, ev) ==
  CASE ev.tag \notin Known -> Skip(st, 1)
    [] ev.tag \in Shapes ->
         LET o == Outline(ev.tag, ev.at, st.vb)
         IN IF o.err THEN Fail(st)
            ELSE LET s == Skip(st, o.warn) IN IF s.err THEN s ELSE Draw(s, o.ops)
    [] ev.tag = "use" -> UseOpen(st, ev.at)
    [] ev.tag = "mask" -> MaskOpen(st, ev.at)
    [] ev.tag = "title" -> [st EXCEPT !.titles = Append(@, ""), !.stack[Len(st.stack)].at = Len(st.titles) + 1]
    [] ev.tag = "desc" -> [st EXCEPT !.descs = Append(@, ""), !.stack[Len(st.stack)].at = Len(st.descs) + 1]
    [] ev.tag \in Gradients ->
         IF GradientBad(ev.at) THEN Fail(st)
         ELSE LET s == Skip(st, GradientSkips(ev.at))
              IN IF s.err THEN s
                 ELSE SetTop(s, [Last(s.stack) EXCEPT !.grad = GradientOf(ev.tag, ev.at, s.vb)])
    [] ev.tag = "stop" -> StopOpen(st, ev.at, ev.sty)
    [] OTHER -> st

ModeOf(st, tag, used) ==
  IF used THEN IF TopMode(st) = "skip" \/ tag = "defs" THEN "skip"
               ELSE IF tag \in {"title", "desc"} THEN "mute" ELSE "live"
  ELSE IF TopMode(st) \in {"defs", "rec"}
       THEN IF tag \in Gradients \cup {"mask"} THEN "live" ELSE "rec"
  ELSE IF tag = "defs" THEN IF InDefs(st) THEN "rec" ELSE "defs"
  ELSE "live"

Open(st, ev, used) ==
  LET m == ModeOf(st, ev.tag, used)
      seen == [st EXCEPT !.seen = TRUE]
      \* the view box comes first: percentages in the root's own style refer to it
      s0 == IF ev.tag = "svg" /\ m = "live" THEN SvgOpen(seen, ev.at) ELSE seen
      r == Cascade(TopStyle(st), ev.at, ev.sty, s0.vb, st.grads)
      f == Frame(ev.tag, m, r.s, IF Has(ev.at, "id") THEN Str(ev.at, "id") ELSE "")
      s1 == IF s0.err \/ r.err THEN Fail(s0) ELSE Skip(s0, r.warn)
      s2 == [s1 EXCEPT !.stack = Append(@, IF m = "rec" THEN [f EXCEPT !.rec = <<ev>>] ELSE f)]
  IN IF s1.err THEN s1 ELSE IF m = "live" THEN Execute(s2, ev) ELSE s2

-----------------------------------------------------------------------------
(* Closing an element                                                         *)
Close(st) ==
  LET f == Last(st.stack)
      s == [st EXCEPT !.stack = Front(@)]
      all == Append(f.rec, [e |-> "close"])
      outer == {i \in 1..Len(s.stack) : s.stack[i].m = "rec"}
      o == CHOOSE i \in outer : \A j \in outer : j <= i
      s1 == IF f.id = "" THEN s ELSE [s EXCEPT !.defs = (f.id :> all) @@ @]
  IN CASE f.m = "rec" -> IF outer = {} THEN s1 ELSE [s1 EXCEPT !.stack[o].rec = @ \o all]
       [] f.m = "live" /\ f.tag = "mask" ->
            [s EXCEPT !.masks = (f.id :> [g |-> f.geo, paths |-> f.paths]) @@ @]
       [] f.m = "live" /\ f.tag \in Gradients ->
            IF f.id = "" THEN s ELSE [s EXCEPT !.grads = (f.id :> f.grad) @@ @]
       [] OTHER -> s

\* text belongs to every open title and desc
Text(st, s) ==
  LET open(tag) == {st.stack[i].at : i \in {j \in 1..Len(st.stack) : st.stack[j].tag = tag /\ st.stack[j].m = "live"}}
      put(q, is) == [i \in 1..Len(q) |-> IF i \in is THEN q[i] \o s ELSE q[i]]
  IN [st EXCEPT !.titles = put(@, open("title")), !.descs = put(@, open("desc"))]

\* one event from the document
Step(st, ev) ==
  CASE ev.e = "open" -> Open(st, ev, FALSE)
    [] ev.e = "close" -> IF st.stack = <<>> THEN Fail(st) ELSE Close(st)
    [] ev.e = "text" -> Text(st, ev.s)
    [] ev.e = "bad" -> Fail(st)
\* one event of a definition being expanded
Expand(st) ==
  LET ev == Head(st.agenda)
      s == [st EXCEPT !.agenda = Tail(@)]
  IN CASE ev.e = "open" -> Open(s, ev, TRUE)
       [] ev.e = "close" -> Close(s)
       [] ev.e = "enduse" -> [s EXCEPT !.using = Front(@)]
\* the end of the stream
Finish(st) == IF ~st.seen \/ st.stack # <<>> THEN Fail(st) ELSE st
=============================================================================
