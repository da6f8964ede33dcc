-------------------------------- MODULE MCDoc --------------------------------
(* Bounded exhaustive exploration of the document machine: all well-nested    *)
(* documents over an alphabet of items (given by the environment), in the     *)
(* given modes.  Declarative laws, stated over the whole event sequence and   *)
(* independently of the machine's stacks, are checked in every state, and     *)
(* every complete document is printed to be replayed in the implementation.   *)
EXTENDS SvgDoc, Json, IOUtils

Conf == ndJsonDeserialize(IOEnv.ALPHABET)[1]
Items == Conf.items          \* [d |-> change of depth, ev |-> events, no |-> tags it may not stand below]

VARIABLES word, mode, depth, st
vars == <<word, mode, depth, st>>

RECURSIVE Drain(_)
Drain(s) == IF s.agenda = <<>> THEN s ELSE Drain(Expand(s))
Feed(s, ev) == IF s.err THEN s ELSE Drain(Step(s, ev))
Run(m, evs) == FoldLeft(Feed, Start(m), evs)
CloseEv == [e |-> "close"]
ItemEvents(i) == IF i = 0 THEN <<CloseEv>> ELSE Items[i].ev
ItemDepth(i) == IF i = 0 THEN -1 ELSE Items[i].d
RECURSIVE Flat(_)
Flat(w) == IF w = <<>> THEN <<>> ELSE ItemEvents(Head(w)) \o Flat(Tail(w))
Events == Conf.root \o Flat(word)

Init == /\ mode \in {Conf.modes[i] : i \in 1..Len(Conf.modes)}
        /\ word = <<>> /\ depth = 1
        /\ st = FoldLeft(Feed, Start(mode), Conf.root)
Code(w) == FoldLeft(LAMBDA a, i : a \o ToString(i) \o ",", "", w)
Add(i) ==
  LET d == depth + ItemDepth(i)
  IN /\ depth > 0 /\ d >= 0 /\ d <= Conf.depth
     /\ Len(word) + 1 + d <= Conf.max
     /\ i > 0 => \A j \in 1..Len(st.stack) : \A k \in 1..Len(Items[i].no) : st.stack[j].tag # Items[i].no[k]
     /\ word' = Append(word, i) /\ depth' = d /\ mode' = mode
     /\ st' = FoldLeft(Feed, st, ItemEvents(i))
     /\ d = 0 => PrintT("W|" \o mode \o "|" \o Code(word'))
Next == \E i \in 0..Len(Items) : Add(i)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Laws                                                                       *)
\* the machine is at rest between events, and its stack follows the nesting
Rest == st.agenda = <<>> /\ (~st.err => st.using = <<>> /\ Len(st.stack) = depth)
\* what is drawn stays drawn, whatever follows
Stable == [][st'.err \/ (Len(st'.paths) >= Len(st.paths) /\ SubSeq(st'.paths, 1, Len(st.paths)) = st.paths)]_vars
\* a failure is final
Final == [][st.err => st' = st]_vars

\* the elements that are open after the events evs
Chain(evs) == FoldLeft(LAMBDA s, e : IF e.e = "open" THEN Append(s, e) ELSE IF e.e = "close" THEN Front(s) ELSE s,
                       <<>>, evs)
DeclIn(e, k) == IF Has(e.sty, k) THEN <<Get(e.sty, k)>> ELSE IF Has(e.at, k) THEN <<Get(e.at, k)>> ELSE <<>>
\* all declarations of k on the chain, outermost first
Decls(ch, k) == FoldLeft(LAMBDA a, e : a \o DeclIn(e, k), <<>>, ch)
Nearest(ch, k, val(_), def) == LET d == Decls(ch, k) IN IF d = <<>> THEN def ELSE val(Last(d))

CascadeLaw ==
  st.err \/ depth = 0 \/
  LET ch == Chain(Events)
      s == TopStyle(st)
      frac(ds) == FoldLeft(LAMBDA a, v : MulDiv(a, Fraction(v), S), S, ds)
      colour(v) == IF v.t = "none" THEN None ELSE Plain(ColorValue(v))
  IN /\ s.lw = Nearest(ch, "stroke-width", LAMBDA v : Resolve(v, Diag(st.vb)), 2 * U)
     /\ s.doff = Nearest(ch, "stroke-dashoffset", LAMBDA v : Resolve(v, Diag(st.vb)), 0)
     /\ s.ml = Nearest(ch, "stroke-miterlimit", LAMBDA v : v.n, 4 * U)
     /\ s.nz = Nearest(ch, "fill-rule", LAMBDA v : v.s = "nonzero", TRUE)
     /\ s.fill = Nearest(ch, "fill", colour, Plain(Black))
     /\ s.line = Nearest(ch, "stroke", colour, None)
     /\ s.join = Nearest(ch, "stroke-linejoin", LAMBDA v : Joins[v.s], "Bevel")
     /\ s.tcap = Nearest(ch, "stroke-linecap", LAMBDA v : Caps[v.s], "ButtCap")
     /\ s.dash = Nearest(ch, "stroke-dasharray", LAMBDA v : IF v.t = "none" THEN <<>> ELSE DashList(v, st.vb), <<>>)
     /\ Near(s.fo, frac(Decls(ch, "opacity") \o Decls(ch, "fill-opacity")), 3)
     /\ Near(s.lo, frac(Decls(ch, "opacity") \o Decls(ch, "stroke-opacity")), 3)

\* one long list from the root to the element
TransformLaw ==
  st.err \/ depth = 0 \/
  LET ch == Chain(Events)
      flat == FoldLeft(LAMBDA a, v : a \o v.a, <<>>, Decls(ch, "transform"))
  IN MatrixNear(ListMatrix(Id, flat), TopStyle(st).t)

RefsLaw ==
  st.err \/ depth = 0 \/
  LET ds == SelectSeq(Decls(Chain(Events), "mask"), LAMBDA v : v.t # "none")
  IN TopStyle(st).masks = [i \in 1..Len(ds) |-> ds[i].id]

\* the shapes among the events, each with the chain of its ancestors
ShapesOf(evs) ==
  FoldLeft(LAMBDA a, i : IF evs[i].e = "open" /\ evs[i].tag \in Shapes
                         THEN Append(a, [ev |-> evs[i], up |-> Chain(SubSeq(evs, 1, i - 1)), i |-> i]) ELSE a,
           <<>>, [i \in 1..Len(evs) |-> i])
Under(x, tag) == \E i \in 1..Len(x.up) : x.up[i].tag = tag
OpsOf(xs) == SelectSeq([i \in 1..Len(xs) |-> Outline(xs[i].ev.tag, xs[i].ev.at, st.vb).ops], LAMBDA o : o # <<>>)
Inner(x) == x.up[CHOOSE i \in 1..Len(x.up) : x.up[i].tag = "mask" /\ \A j \in (i + 1)..Len(x.up) : x.up[j].tag # "mask"]
\* what is under a mask is collected there, everything else is drawn (documents without defs)
MaskLaw ==
  st.err \/
  LET xs == ShapesOf(Events)
      free == SelectSeq(xs, LAMBDA x : ~Under(x, "mask"))
  IN /\ [i \in 1..Len(st.paths) |-> st.paths[i].ops] = OpsOf(free)
     /\ depth = 0 =>
          \A id \in DOMAIN st.masks :
            LET own == SelectSeq(xs, LAMBDA x : Under(x, "mask") /\ Str(Inner(x).at, "id") = id)
            IN [i \in 1..Len(st.masks[id].paths) |-> st.masks[id].paths[i].ops] = OpsOf(own)

Ids(evs) == SelectSeq(evs, LAMBDA e : e.e = "open" /\ e.tag = "mask")
\* ... as long as no mask id is defined twice
MaskLawOnce == Len(Ids(Events)) > 1 \/ MaskLaw

\* titles and descriptions: the text below each title or desc element
RECURSIVE Below(_, _, _)
Below(evs, i, d) == IF d = 0 \/ i > Len(evs) THEN ""
                    ELSE (IF evs[i].e = "text" THEN evs[i].s ELSE "") \o
                         Below(evs, i + 1, d + (IF evs[i].e = "open" THEN 1 ELSE IF evs[i].e = "close" THEN -1 ELSE 0))
TextsOf(evs, tag) == FoldLeft(LAMBDA a, i : IF evs[i].e = "open" /\ evs[i].tag = tag
                                            /\ \A j \in 1..Len(Chain(SubSeq(evs, 1, i - 1))) : Chain(SubSeq(evs, 1, i - 1))[j].tag # "defs"
                                            THEN Append(a, Below(evs, i + 1, 1)) ELSE a,
                              <<>>, [i \in 1..Len(evs) |-> i])
TextLaw == st.err \/ (st.titles = TextsOf(Events, "title") /\ st.descs = TextsOf(Events, "desc"))
SizeLaw == st.err \/ LET r == Conf.root[1].at
                     IN st.vb[1] = Get(r, "viewBox").a[1] /\ st.vb[3] = Get(r, "viewBox").a[3]

\* use = a group in its place (documents without masks and gradients)
RECURSIVE Match(_, _, _)
\* the position of the close that matches the open at i - 1
Match(evs, i, d) == LET n == d + (IF evs[i].e = "open" THEN 1 ELSE IF evs[i].e = "close" THEN -1 ELSE 0)
                    IN IF n = 0 THEN i ELSE Match(evs, i + 1, n)
InDefsAt(evs, i) == LET ch == Chain(SubSeq(evs, 1, i - 1)) IN \E j \in 1..Len(ch) : ch[j].tag = "defs"
\* the definition with this id: of several the one that ended last before position k
DefAt(evs, id, k) ==
  LET ends == {i \in 1..(k - 1) : /\ evs[i].e = "open" /\ Has(evs[i].at, "id") /\ Str(evs[i].at, "id") = id
                                  /\ InDefsAt(evs, i) /\ Match(evs, i + 1, 1) < k}
  IN CHOOSE i \in ends : \A j \in ends : Match(evs, j + 1, 1) <= Match(evs, i + 1, 1)
GroupOf(ev) ==
  LET own == IF Has(ev.at, "transform") THEN Get(ev.at, "transform").a ELSE <<>>
      shift == << [f |-> "translate", a |-> <<Val(ev.at, "x", st.vb) * (S \div U), Val(ev.at, "y", st.vb) * (S \div U)>>] >>
      rest == SelectSeq(ev.at, LAMBDA d : d.k \notin {"href", "x", "y", "transform", "id"})
  IN [ev EXCEPT !.tag = "g", !.at = Append(rest, [k |-> "transform", v |-> [t |-> "tf", a |-> own \o shift]])]
RECURSIVE Inline(_, _, _, _, _)
\* events evs[i..j] with every use replaced; k bounds the definitions that exist, n the nesting
Inline(evs, i, j, k, n) ==
  IF i > j THEN <<>>
  ELSE IF evs[i].e = "open" /\ evs[i].tag \in {"defs", "title", "desc"}
  THEN Inline(evs, Match(evs, i + 1, 1) + 1, j, k, n)
  ELSE IF evs[i].e = "open" /\ evs[i].tag = "use"
  THEN LET m == IF k = 0 THEN i ELSE k
           d == DefAt(evs, Str(evs[i].at, "href"), m)
       IN <<GroupOf(evs[i])>> \o Inline(evs, d, Match(evs, d + 1, 1), m, n + 1)
          \o <<CloseEv>> \o Inline(evs, Match(evs, i + 1, 1) + 1, j, k, n)
  ELSE <<evs[i]>> \o Inline(evs, i + 1, j, k, n)
UseLaw ==
  (st.err \/ depth > 0) \/
  LET s == Run(mode, Inline(Events, 1, Len(Events), 0, 0))
  IN ~s.err /\ Len(s.paths) = Len(st.paths)
     /\ \A i \in 1..Len(s.paths) : s.paths[i].ops = st.paths[i].ops
                                   /\ [s.paths[i].st EXCEPT !.t = Id] = [st.paths[i].st EXCEPT !.t = Id]
                                   /\ MatrixNear(s.paths[i].st.t, st.paths[i].st.t)

\* modes differ only in reporting
ModeLaw ==
  LET i == Run("ignore", Events)
      w == Run("warn", Events)
      s == Run("strict", Events)
  IN /\ [i EXCEPT !.mode = "-"] = [w EXCEPT !.mode = "-"]
     /\ s.err = (i.err \/ i.warns > 0)
     /\ ~s.err => s.paths = i.paths /\ s.masks = i.masks /\ s.titles = i.titles /\ s.vb = i.vb

\* gradients: a path carries the definition that was in force where its paint was declared
GradLaw ==
  st.err \/ depth = 0 \/
  LET evs == Events
      ch(i) == Chain(SubSeq(evs, 1, i))
      open == {i \in 1..Len(evs) : evs[i].e = "open" /\ Match(evs \o [k \in 1..depth |-> CloseEv], i + 1, 1) > Len(evs)}
      decl == {i \in open : DeclIn(evs[i], "fill") # <<>>}
      at == CHOOSE i \in decl : \A j \in decl : j <= i
      v == DeclIn(evs[at], "fill")[1]
      ends == {i \in 1..(at - 1) : evs[i].e = "open" /\ evs[i].tag \in Gradients /\ Str(evs[i].at, "id") = v.id
                                   /\ Match(evs, i + 1, 1) < at}
      g == CHOOSE i \in ends : \A j \in ends : j <= i
      inside == SubSeq(evs, g + 1, Match(evs, g + 1, 1) - 1)
      stops == SelectSeq(inside, LAMBDA e : e.e = "open" /\ e.tag = "stop")
      f == TopStyle(st).fill
  IN IF decl = {} THEN f = Plain(Black)
     ELSE IF v.t # "url" THEN f = (IF v.t = "none" THEN None ELSE Plain(ColorValue(v)))
     ELSE IF ends = {} THEN f = Plain(Black)
     ELSE /\ f.t = "grad" /\ f.g.kind = (IF evs[g].tag = "linearGradient" THEN "lin" ELSE "rad")
          /\ Len(f.g.stops) = Len(stops)
          /\ \A i \in 1..Len(stops) :
               Has(stops[i].at, "stop-color") => f.g.stops[i].c = ColorValue(Get(stops[i].at, "stop-color"))
=============================================================================
