------------------------------- MODULE SvgPath -------------------------------
(* Path data: the meaning of a list of path commands as drawing operations,   *)
(* and the agreement of an observed operation sequence with that meaning.     *)
(*                                                                            *)
(* A command is [c |-> letter, rel |-> BOOLEAN, a |-> arguments, w |-> wit].  *)
(* Coordinates are in 1/U; an arc group is rx ry angle large sweep x y with   *)
(* the angle in degrees and flags 0 or 1, and carries a witness (centre and   *)
(* final radii) that is verified, not trusted.                                *)
EXTENDS SvgNum

Arity(c) == CASE c \in {"M", "L", "T"} -> 2
              [] c \in {"H", "V"} -> 1
              [] c = "C" -> 6
              [] c \in {"S", "Q"} -> 4
              [] c = "A" -> 7
              [] OTHER -> 0
Letters == {"M", "L", "H", "V", "C", "S", "Q", "T", "A", "Z"}
Drawing == Letters \ {"M", "Z"}

PathStart == [cur |-> <<0, 0>>, start |-> <<0, 0>>, ctl |-> <<0, 0>>, last |-> "-",
              open |-> FALSE, out |-> <<>>, err |-> FALSE, warn |-> 0]

ArityOK(cmd) == IF cmd.c = "Z" THEN Len(cmd.a) = 0
                ELSE Len(cmd.a) > 0 /\ Len(cmd.a) % Arity(cmd.c) = 0

Refl(p, c) == <<2 * p[1] - c[1], 2 * p[2] - c[2]>>

\* the effect of argument group g (1-based) of command cmd
Group(s, cmd, g) ==
  LET n == Arity(cmd.c)
      arg(i) == cmd.a[(g - 1) * n + i]
      bx == IF cmd.rel THEN s.cur[1] ELSE 0
      by == IF cmd.rel THEN s.cur[2] ELSE 0
      pt(i) == <<arg(i) + bx, arg(i + 1) + by>>
      line(p) == [s EXCEPT !.cur = p, !.last = "-", !.out = Append(@, [k |-> "L", p |-> p])]
  IN CASE cmd.c = "M" ->
            IF g = 1
            THEN [s EXCEPT !.cur = pt(1), !.start = pt(1), !.last = "-", !.open = TRUE,
                           !.out = Append(@, [k |-> "M", p |-> pt(1)])]
            ELSE line(pt(1))
       [] cmd.c = "L" -> line(pt(1))
       [] cmd.c = "H" -> line(<<arg(1) + bx, s.cur[2]>>)
       [] cmd.c = "V" -> line(<<s.cur[1], arg(1) + by>>)
       [] cmd.c = "Q" ->
            [s EXCEPT !.cur = pt(3), !.ctl = pt(1), !.last = "Q",
                      !.out = Append(@, [k |-> "Q", p |-> pt(1) \o pt(3)])]
       [] cmd.c = "T" ->
            LET c == IF s.last = "Q" THEN Refl(s.cur, s.ctl) ELSE s.cur
            IN [s EXCEPT !.cur = pt(1), !.ctl = c, !.last = "Q",
                         !.out = Append(@, [k |-> "Q", p |-> c \o pt(1)])]
       [] cmd.c = "C" ->
            [s EXCEPT !.cur = pt(5), !.ctl = pt(3), !.last = "C",
                      !.out = Append(@, [k |-> "C", p |-> pt(1) \o pt(3) \o pt(5)])]
       [] cmd.c = "S" ->
            LET c == IF s.last = "C" THEN Refl(s.cur, s.ctl) ELSE s.cur
            IN [s EXCEPT !.cur = pt(3), !.ctl = pt(1), !.last = "C",
                         !.out = Append(@, [k |-> "C", p |-> c \o pt(1) \o pt(3)])]
       [] cmd.c = "A" ->
            LET e == <<arg(6) + bx, arg(7) + by>>
            IN IF e = s.cur THEN [s EXCEPT !.last = "-"]
               ELSE IF arg(1) = 0 \/ arg(2) = 0 THEN line(e)
               ELSE [s EXCEPT !.cur = e, !.last = "-",
                       !.out = Append(@, [k |-> "A", p |-> <<s.cur, e>>,
                                          r |-> <<Abs(arg(1)), Abs(arg(2))>>, rot |-> arg(3),
                                          large |-> arg(4) # 0, sweep |-> arg(5) # 0,
                                          wit |-> cmd.w[g]])]

RECURSIVE Groups(_, _, _)
Groups(s, cmd, g) ==
  IF g > Len(cmd.a) \div Arity(cmd.c) THEN s ELSE Groups(Group(s, cmd, g), cmd, g + 1)

Command(s, cmd) ==
  IF s.err THEN s
  ELSE IF cmd.c = "!" THEN [s EXCEPT !.err = TRUE]          \* not a number where one is needed
  ELSE IF cmd.c \notin Letters THEN [s EXCEPT !.warn = @ + 1, !.last = "-"]
  ELSE IF ~ArityOK(cmd) THEN [s EXCEPT !.err = TRUE]
  ELSE IF cmd.c # "M" /\ s.out = <<>> THEN [s EXCEPT !.err = TRUE]  \* a path begins with a moveto
  ELSE IF cmd.c = "Z" THEN
         IF s.open THEN [s EXCEPT !.cur = s.start, !.open = FALSE, !.last = "-",
                                  !.out = Append(@, [k |-> "Z", p |-> <<>>])]
         ELSE [s EXCEPT !.last = "-"]
  ELSE LET t == IF cmd.c \in Drawing /\ ~s.open
                THEN [s EXCEPT !.open = TRUE, !.cur = s.start,
                               !.out = Append(@, [k |-> "M", p |-> s.start])]
                ELSE s
       IN Groups(t, cmd, 1)

Interp(cmds) == FoldLeft(Command, PathStart, cmds)

-----------------------------------------------------------------------------
(* Ellipses.  Points are mapped to the unit circle, scaled by N.              *)
N == 1024
Unit(c, r, rot, p) ==
  LET dx == p[1] - c[1]
      dy == p[2] - c[2]
      u == MulDiv(dx, Cos(rot), S) + MulDiv(dy, Sin(rot), S)
      v == MulDiv(dy, Cos(rot), S) - MulDiv(dx, Sin(rot), S)
      far == 4 * Max2(r[1], r[2]) + 64
  IN IF Abs(dx) > far \/ Abs(dy) > far THEN <<4 * N, 4 * N>>     \* nowhere near
     ELSE <<MulDiv(N, u, r[1]), MulDiv(N, v, r[2])>>
Cross(p, q) == p[1] * q[2] - p[2] * q[1]
Norm2(p) == p[1] * p[1] + p[2] * p[2]
Small(r) == Min2(r[1], r[2])
\* slack of |p|^2 for a position error of three units and a shape error of 1/256
Slack(r) == ((2 * N * N) \div Small(r)) * 3 + (N * N) \div 128
OnUnit(p, r) == Abs(p[1]) <= 3 * N /\ Abs(p[2]) <= 3 * N /\ Near(Norm2(p), N * N, Slack(r))
Mid(p0, c) == << (p0[1] + 3 * c[1] + 3 * c[3] + c[5]) \div 8, (p0[2] + 3 * c[2] + 3 * c[4] + c[6]) \div 8 >>
End(c) == <<c[5], c[6]>>

\* An arc between end points that almost coincide is judged without a witness.
Chord(a) == Abs(a.p[1][1] - a.p[2][1]) + Abs(a.p[1][2] - a.p[2][2])
Short(a) == a.wit[3] = 0
ShortOK(a) == 4 * Chord(a) <= Min2(a.r[1], a.r[2])

\* The witness <<cx, cy, rx, ry>> of an arc is what SVG prescribes.
ArcWitnessOK(a) ==
  IF Short(a) THEN ShortOK(a) ELSE
  LET w == a.wit
      c == <<w[1], w[2]>>
      r == <<w[3], w[4]>>
      p0 == Unit(c, r, a.rot, a.p[1])
      p1 == Unit(c, r, a.rot, a.p[2])
      dir == IF a.sweep THEN 1 ELSE -1
      mid == << (a.p[1][1] + a.p[2][1]) \div 2, (a.p[1][2] + a.p[2][2]) \div 2 >>
  IN /\ OnUnit(p0, r) /\ OnUnit(p1, r)
     /\ IF Near(r[1], a.r[1], 1) /\ Near(r[2], a.r[2], 1)
        THEN \/ Near(c[1], mid[1], 8) /\ Near(c[2], mid[2], 8)   \* half an ellipse
             \/ (dir * Cross(p0, p1) > 0) = ~a.large
        ELSE \* too small: scaled up just enough, centre half way
             /\ r[1] >= a.r[1] /\ r[2] >= a.r[2]
             /\ Near(MulDiv(r[1], N, a.r[1]), MulDiv(r[2], N, a.r[2]), 8 + N \div 64)
             /\ Near(c[1], mid[1], 2) /\ Near(c[2], mid[2], 2)

\* points q[1..n] on the unit circle advance in direction dir without turning back
Advances(q, dir) == \A i \in 1..(Len(q) - 1) : dir * Cross(q[i], q[i + 1]) > 0

\* obs[j..j+n-1] are cubics; their end points and middles, as points of the unit circle
CubicTrail(c, r, rot, from, obs, j, n) ==
  LET start(i) == IF i = 1 THEN from ELSE End(obs[j + i - 2].p)
  IN [i \in 1..(2 * n) |->
        LET k == (i + 1) \div 2
        IN IF i % 2 = 1 THEN Unit(c, r, rot, Mid(start(k), obs[j + k - 1].p))
           ELSE Unit(c, r, rot, End(obs[j + k - 1].p))]

\* number of cubics of obs, from position j, up to the first that ends at p
RECURSIVE CubicsTo(_, _, _, _)
CubicsTo(obs, j, p, n) ==
  IF j > Len(obs) \/ obs[j].k # "C" THEN 0
  ELSE IF NearSeq(End(obs[j].p), p, 2) THEN n
  ELSE CubicsTo(obs, j + 1, p, n + 1)

\* the small arc stays near its ends, the large one goes around the ellipse
ShortMatches(a, from, obs, j, n) ==
  LET start(i) == IF i = 1 THEN from ELSE End(obs[j + i - 2].p)
      pts == {End(obs[j + i - 1].p) : i \in 1..n} \cup {Mid(start(i), obs[j + i - 1].p) : i \in 1..n}
      away(p) == Max2(Abs(p[1] - from[1]), Abs(p[2] - from[2]))
  IN IF a.large THEN /\ \A p \in pts : away(p) <= 2 * Max2(a.r[1], a.r[2]) + Chord(a) + 8
                     /\ \E p \in pts : away(p) >= Min2(a.r[1], a.r[2])
     ELSE \A p \in pts : away(p) <= Chord(a) + 4

ArcMatches(a, from, obs, j, n) ==
  IF Short(a) THEN ShortMatches(a, from, obs, j, n) ELSE
  LET c == <<a.wit[1], a.wit[2]>>
      r == <<a.wit[3], a.wit[4]>>
      dir == IF a.sweep THEN 1 ELSE -1
      p0 == Unit(c, r, a.rot, a.p[1])
      p1 == Unit(c, r, a.rot, a.p[2])
      q == CubicTrail(c, r, a.rot, from, obs, j, n)
      half == Abs(Cross(p0, p1)) <= (N * N) \div 8
      inner == {i \in 1..(2 * n - 1) : TRUE}
  IN /\ \A i \in 1..(2 * n) : OnUnit(q[i], r)
     /\ Advances(<<p0>> \o q, dir)
     /\ \A i \in inner :
          LET a0 == dir * Cross(p0, q[i])
              a1 == dir * Cross(q[i], p1)
          IN IF half THEN a0 >= -((N * N) \div 6) /\ a1 >= -((N * N) \div 6)
             ELSE IF a.large THEN ~(a0 < -((N * N) \div 64) /\ a1 < -((N * N) \div 64))
             ELSE a0 > 0 /\ a1 > 0

\* one full turn around the centre, back to the first point
FullTurn(q) ==
  LET dir == Sgn(Cross(q[1], q[2]))
      side(i) == Sgn(dir * Cross(q[1], q[i]))
      n == Len(q)
  IN /\ n >= 7 /\ dir # 0
     /\ \A i \in 1..(n - 1) : dir * Cross(q[i], q[i + 1]) > 0
     /\ \E t \in 3..(n - 2) : /\ \A i \in 2..t : side(i) >= 0
                              /\ \A i \in (t + 1)..(n - 1) : side(i) <= 0

EllipseMatches(e, obs) ==
  LET n == Len(obs)
      c == <<e.c[1], e.c[2]>>
      r == e.r
  IN /\ n >= 4 /\ obs[1].k = "M" /\ obs[n].k = "Z"
     /\ \A i \in 2..(n - 1) : obs[i].k = "C"
     /\ NearSeq(End(obs[n - 1].p), obs[1].p, 2)
     /\ LET q == <<Unit(c, r, 0, obs[1].p)>> \o CubicTrail(c, r, 0, obs[1].p, obs, 2, n - 2)
        IN (\A i \in 1..Len(q) : OnUnit(q[i], r)) /\ FullTurn(q)

-----------------------------------------------------------------------------
(* Rounded rectangles [x, y, w, h, rx, ry].                                   *)
RoundTangents(b) ==
  LET x == b[1] y == b[2] X == b[1] + b[3] Y == b[2] + b[4] rx == b[5] ry == b[6]
  IN << <<x + rx, y>>, <<X - rx, y>>, <<X, y + ry>>, <<X, Y - ry>>,
        <<X - rx, Y>>, <<x + rx, Y>>, <<x, Y - ry>>, <<x, y + ry>> >>
OnRound(b, p, t) ==
  LET x == b[1] y == b[2] X == b[1] + b[3] Y == b[2] + b[4] rx == b[5] ry == b[6]
      dx == IF p[1] < x + rx THEN p[1] - (x + rx) ELSE IF p[1] > X - rx THEN p[1] - (X - rx) ELSE 0
      dy == IF p[2] < y + ry THEN p[2] - (y + ry) ELSE IF p[2] > Y - ry THEN p[2] - (Y - ry) ELSE 0
  IN \/ (Near(p[1], x, t) \/ Near(p[1], X, t)) /\ p[2] >= y + ry - t /\ p[2] <= Y - ry + t
     \/ (Near(p[2], y, t) \/ Near(p[2], Y, t)) /\ p[1] >= x + rx - t /\ p[1] <= X - rx + t
     \/ LET q == <<MulDiv(N, dx, rx), MulDiv(N, dy, ry)>>
        IN /\ Abs(q[1]) <= 3 * N /\ Abs(q[2]) <= 3 * N
           /\ Near(Norm2(q), N * N, ((2 * N * N) \div Min2(rx, ry)) * t + (N * N) \div 64)

RoundMatches(e, obs) ==
  LET b == e.b
      n == Len(obs)
      t == 4 + 2 * (Max2(b[5], b[6]) \div Min2(b[5], b[6]))
      mid == <<b[1] + b[3] \div 2, b[2] + b[4] \div 2>>
      shrink(p) == << (p[1] - mid[1]) \div 4, (p[2] - mid[2]) \div 4 >>
      endp(i) == IF obs[i].k = "C" THEN End(obs[i].p) ELSE obs[i].p
      tan == RoundTangents(b)
      ring == [i \in 1..(n - 1) |-> shrink(endp(i))]
      dirs == {i \in 1..(n - 2) : ring[i] # ring[i + 1]}
  IN /\ n >= 9 /\ obs[1].k = "M" /\ obs[n].k = "Z"
     /\ \A i \in 2..(n - 1) : obs[i].k \in {"L", "C"}
     /\ \A i \in 1..(n - 1) : OnRound(b, endp(i), t)
     /\ \A i \in 2..(n - 1) :
          LET m == IF obs[i].k = "C" THEN Mid(endp(i - 1), obs[i].p)
                   ELSE << (endp(i - 1)[1] + endp(i)[1]) \div 2, (endp(i - 1)[2] + endp(i)[2]) \div 2 >>
          IN OnRound(b, m, t)
     /\ NearSeq(endp(n - 1), endp(1), t)
     /\ \A k \in 1..8 : \E i \in 1..(n - 1) : NearSeq(endp(i), tan[k], t)
     /\ \A i \in dirs : Cross(ring[i], ring[i + 1]) >= -((t \div 4 + 2) * (Abs(ring[i][1]) + Abs(ring[i][2])))
     \* exactly once around: the centre is left on the same side throughout and
     \* the outline crosses the ray to the left of the centre once more upwards than downwards
     /\ Cardinality({i \in 1..(n - 2) : ring[i][1] < 0 /\ ring[i][2] > 0 /\ ring[i + 1][2] <= 0 /\ ring[i + 1][1] < 0})
        - Cardinality({i \in 1..(n - 2) : ring[i][1] < 0 /\ ring[i][2] <= 0 /\ ring[i + 1][2] > 0 /\ ring[i + 1][1] < 0}) = 1

-----------------------------------------------------------------------------
(* Agreement of an observed operation list with the expected items.           *)
EndOf(o, cur, start) == CASE o.k = "Z" -> start
                          [] o.k = "M" -> o.p
                          [] OTHER -> SubSeq(o.p, Len(o.p) - 1, Len(o.p))
RECURSIVE MatchFrom(_, _, _, _, _, _, _)
MatchFrom(exp, i, obs, j, cur, start, tol) ==
  IF i > Len(exp) THEN j > Len(obs)
  ELSE IF j > Len(obs) THEN FALSE
  ELSE LET e == exp[i] o == obs[j]
       IN IF e.k = "A"
          THEN LET n == CubicsTo(obs, j, e.p[2], 1)
               IN /\ n > 0
                  /\ ArcMatches(e, cur, obs, j, n)
                  /\ MatchFrom(exp, i + 1, obs, j + n, e.p[2], start, tol)
          ELSE /\ o.k = e.k
               /\ NearSeq(o.p, e.p, tol)
               /\ MatchFrom(exp, i + 1, obs, j + 1, EndOf(o, cur, start),
                            IF o.k = "M" THEN o.p ELSE start, tol)
Matches(exp, obs, tol) ==
  CASE Len(exp) = 1 /\ exp[1].k = "EL" -> EllipseMatches(exp[1], obs)
    [] Len(exp) = 1 /\ exp[1].k = "RR" -> RoundMatches(exp[1], obs)
    [] OTHER -> MatchFrom(exp, 1, obs, 1, <<0, 0>>, <<0, 0>>, tol)
WitnessesOK(exp) == \A i \in 1..Len(exp) : exp[i].k = "A" => ArcWitnessOK(exp[i])
=============================================================================
