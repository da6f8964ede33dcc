------------------------------ MODULE SvgMatrix ------------------------------
(* Affine maps <<a, b, c, d, e, f>> as in SVG:  x' = a x + c y + e,           *)
(* y' = b x + d y + f.  The linear part is scaled by S, e and f by U.         *)
EXTENDS SvgNum

Id == <<S, 0, 0, S, 0, 0>>

\* product: first n, then m
Mul(m, n) ==
  << MulDiv(m[1], n[1], S) + MulDiv(m[3], n[2], S),
     MulDiv(m[2], n[1], S) + MulDiv(m[4], n[2], S),
     MulDiv(m[1], n[3], S) + MulDiv(m[3], n[4], S),
     MulDiv(m[2], n[3], S) + MulDiv(m[4], n[4], S),
     MulDiv(n[5], m[1], S) + MulDiv(n[6], m[3], S) + m[5],
     MulDiv(n[5], m[2], S) + MulDiv(n[6], m[4], S) + m[6] >>

\* image of the point (x, y), both in units of 1/U
Apply(m, x, y) ==
  << MulDiv(x, m[1], S) + MulDiv(y, m[3], S) + m[5],
     MulDiv(x, m[2], S) + MulDiv(y, m[4], S) + m[6] >>
ApplyVec(m, x, y) ==
  << MulDiv(x, m[1], S) + MulDiv(y, m[3], S), MulDiv(x, m[2], S) + MulDiv(y, m[4], S) >>

Translation(x, y) == <<S, 0, 0, S, x, y>>
Scaling(x, y) == <<x, 0, 0, y, 0, 0>>
Rotation(deg) == <<Cos(deg), Sin(deg), -Sin(deg), Cos(deg), 0, 0>>
SkewingX(deg) == <<S, 0, Tan(deg), S, 0, 0>>
SkewingY(deg) == <<S, Tan(deg), 0, S, 0, 0>>

\* mean length of the images of the two unit vectors, scaled by S
LineScale(m) ==
  LET len(x, y) == 4 * ISqrt((x \div 4) * (x \div 4) + (y \div 4) * (y \div 4))
  IN (len(m[1], m[2]) + len(m[3], m[4])) \div 2

\* One transform function [f |-> name, a |-> arguments scaled by S].
\* Angles are whole multiples of 15 degrees.
KnownFn == {"translate", "scale", "rotate", "skewx", "skewy", "matrix"}
FnOK(t) ==
  /\ t.f \in KnownFn
  /\ Len(t.a) \in CASE t.f = "translate" -> {1, 2}
                    [] t.f = "scale" -> {1, 2}
                    [] t.f = "rotate" -> {1, 3}
                    [] t.f \in {"skewx", "skewy"} -> {1}
                    [] t.f = "matrix" -> {6}
\* m followed on the right by the function
FnApply(m, t) ==
  LET a == t.a
      tx(n) == RDiv(n, S \div U)
  IN CASE t.f = "translate" -> Mul(m, Translation(tx(a[1]), IF Len(a) = 2 THEN tx(a[2]) ELSE 0))
       [] t.f = "scale" -> Mul(m, Scaling(a[1], IF Len(a) = 2 THEN a[2] ELSE a[1]))
       [] t.f = "rotate" ->
            IF Len(a) = 1 THEN Mul(m, Rotation(a[1] \div S))
            ELSE Mul(Mul(Mul(m, Translation(tx(a[2]), tx(a[3]))), Rotation(a[1] \div S)),
                     Translation(-tx(a[2]), -tx(a[3])))
       [] t.f = "skewx" -> Mul(m, SkewingX(a[1] \div S))
       [] t.f = "skewy" -> Mul(m, SkewingY(a[1] \div S))
       [] t.f = "matrix" -> Mul(m, <<a[1], a[2], a[3], a[4], tx(a[5]), tx(a[6])>>)

ListOK(ts) == \A i \in 1..Len(ts) : FnOK(ts[i])
RECURSIVE ListMatrix(_, _)
ListMatrix(m, ts) == IF ts = <<>> THEN m ELSE ListMatrix(FnApply(m, Head(ts)), Tail(ts))

\* Agreement of an observed matrix with a computed one.  The slack covers the
\* rounding of at most a handful of trigonometric factors.
MatrixNear(m, o) ==
  /\ Len(o) = 6
  /\ LET big == Max2(Max2(Abs(m[1]), Abs(m[2])), Max2(Abs(m[3]), Abs(m[4])))
         far == Max2(Abs(m[5]), Abs(m[6]))
     IN /\ \A i \in 1..4 : Near(m[i], o[i], 6 + big \div 512)
        /\ \A i \in 5..6 : Near(m[i], o[i], 3 + far \div 512 + big \div 1024)
=============================================================================
