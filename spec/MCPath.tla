------------------------------- MODULE MCPath -------------------------------
(* Bounded exhaustive exploration of the path interpreter: all sequences of   *)
(* commands over an alphabet (given by the environment) after a moveto.       *)
(* Every sequence is printed to be replayed in the implementation.            *)
EXTENDS SvgPath, Json, IOUtils

Conf == ndJsonDeserialize(IOEnv.ALPHABET)[1]
Cmds == Conf.cmds
VARIABLES word, s
vars == <<word, s>>
List(w) == [i \in 1..Len(w) |-> Cmds[w[i]]]

Init == \E i \in 1..Conf.starts : word = <<i>> /\ s = Command(PathStart, Cmds[i])
Code(w) == FoldLeft(LAMBDA a, i : a \o ToString(i) \o ",", "", w)
Next == /\ Len(word) < Conf.max /\ ~s.err
        /\ \E i \in 1..Len(Cmds) :
             /\ word' = Append(word, i) /\ s' = Command(s, Cmds[i])
             /\ PrintT("W|path|" \o Code(word'))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Laws                                                                       *)
\* what was drawn stays drawn
Stable == [][SubSeq(s'.out, 1, Len(s.out)) = s.out]_vars
\* a close leads back to the start of the subpath
CloseLaw == (~s.err /\ Cmds[Last(word)].c = "Z") => s.cur = s.start /\ ~s.open
\* the output is a sequence of subpaths, each begun by a moveto
Shape == \A i \in 1..Len(s.out) :
           s.out[i].k # "M" => \E j \in 1..(i - 1) : s.out[j].k = "M" /\ \A l \in (j + 1)..(i - 1) : s.out[l].k \notin {"Z"}
\* the current point is where the last operation ended
PenLaw == s.err \/ s.out = <<>> \/ Last(s.out).k \in {"Z", "A"} \/
          s.cur = SubSeq(Last(s.out).p, Len(Last(s.out).p) - 1, Len(Last(s.out).p))

\* one command per argument group
Pieces(c) ==
  IF c.c = "Z" \/ ~ArityOK(c) THEN <<c>>
  ELSE LET n == Arity(c.c)
       IN [g \in 1..(Len(c.a) \div n) |->
             [c EXCEPT !.a = SubSeq(c.a, (g - 1) * n + 1, g * n),
                       !.w = IF c.c = "A" THEN <<c.w[g]>> ELSE <<>>,
                       !.c = IF c.c = "M" /\ g > 1 THEN "L" ELSE @]]
\* a command in absolute form, from the point p
Absolute(c, p) ==
  IF ~c.rel THEN c
  ELSE CASE c.c = "Z" -> [c EXCEPT !.rel = FALSE]
         [] c.c = "H" -> [c EXCEPT !.rel = FALSE, !.a = <<c.a[1] + p[1]>>]
         [] c.c = "V" -> [c EXCEPT !.rel = FALSE, !.a = <<c.a[1] + p[2]>>]
         [] c.c = "A" -> [c EXCEPT !.rel = FALSE, !.a = SubSeq(c.a, 1, 5) \o <<c.a[6] + p[1], c.a[7] + p[2]>>]
         [] OTHER -> [c EXCEPT !.rel = FALSE, !.a = [i \in 1..Len(c.a) |-> c.a[i] + p[IF i % 2 = 1 THEN 1 ELSE 2]]]
\* an explicit curve for a smooth one, given the operation before
Explicit(c, p, prev) ==
  LET ctl == CASE c.c = "S" /\ prev.k = "C" -> <<2 * p[1] - prev.p[3], 2 * p[2] - prev.p[4]>>
               [] c.c = "T" /\ prev.k = "Q" -> <<2 * p[1] - prev.p[1], 2 * p[2] - prev.p[2]>>
               [] OTHER -> p
  IN CASE c.c = "S" -> [c EXCEPT !.c = "C", !.a = ctl \o @]
       [] c.c = "T" -> [c EXCEPT !.c = "Q", !.a = ctl \o @]
       [] c.c = "H" -> [c EXCEPT !.c = "L", !.a = <<c.a[1], p[2]>>]
       [] c.c = "V" -> [c EXCEPT !.c = "L", !.a = <<p[1], c.a[1]>>]
       [] OTHER -> c
RECURSIVE Normal(_, _, _)
\* executes the pieces in absolute, explicit form
Normal(t, ps, before) ==
  IF ps = <<>> \/ t.err THEN t
  ELSE LET c == Head(ps)
           from == IF c.c \in Drawing /\ ~t.open THEN t.start ELSE t.cur
           prev == IF before \in {"C", "S", "Q", "T"} /\ t.out # <<>> THEN Last(t.out) ELSE [k |-> "-", p |-> <<>>]
           x == IF ArityOK(c) THEN Explicit(Absolute(c, from), from, prev) ELSE c
       IN Normal(Command(t, x), Tail(ps), c.c)
RECURSIVE AllPieces(_)
AllPieces(cs) == IF cs = <<>> THEN <<>> ELSE Pieces(Head(cs)) \o AllPieces(Tail(cs))
\* abbreviations do not change the meaning
NormalLaw == LET t == Normal(PathStart, AllPieces(List(word)), "-")
             IN IF s.err THEN t.err ELSE ~t.err /\ t.out = s.out /\ t.cur = s.cur
=============================================================================
