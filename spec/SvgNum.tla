------------------------------- MODULE SvgNum -------------------------------
(* Integer arithmetic shared by all modules.  TLC integers have 32 bits, so   *)
(* lengths are counted in 1/64 pixel and ratios in 1/4096.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

U == 64      \* units per pixel
S == 4096    \* units per one, for ratios (matrices, opacities, offsets)

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Clamp(x, lo, hi) == Max2(lo, Min2(x, hi))
Near(a, b, t) == Abs(a - b) <= t
NearSeq(p, q, t) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Near(p[i], q[i], t)

\* a / b rounded to the nearest integer, b > 0
RDiv(a, b) == (2 * a + b) \div (2 * b)
\* a * b / s without overflow as long as the result and s * b fit
MulDiv(a, b, s) == (a \div s) * b + RDiv((a % s) * b, s)

\* integer square root
RECURSIVE ISqrtBetween(_, _, _)
ISqrtBetween(n, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF mid * mid <= n THEN ISqrtBetween(n, mid, hi) ELSE ISqrtBetween(n, lo, mid - 1)
ISqrt(n) == ISqrtBetween(n, 0, 46340)

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE FoldLeft(_, _, _)
FoldLeft(op(_, _), b, s) == IF s = <<>> THEN b ELSE FoldLeft(op, op(b, Head(s)), Tail(s))

\* sine of multiples of 15 degrees, scaled by S
SinQuarter == <<0, 1060, 2048, 2896, 3547, 3956, 4096>>
Sin(deg) ==
  LET d == deg % 360
      k == d \div 15
  IN IF k <= 6 THEN SinQuarter[k + 1]
     ELSE IF k <= 12 THEN SinQuarter[13 - k]
     ELSE IF k <= 18 THEN -SinQuarter[k - 11]
     ELSE -SinQuarter[25 - k]
Cos(deg) == Sin(deg + 90)
\* tangent of a multiple of 15 degrees other than 90
TanQuarter == <<0, 1098, 2365, 4096, 7094, 15286>>
Tan(deg) ==
  LET k == (deg % 180) \div 15
  IN IF k <= 5 THEN TanQuarter[k + 1] ELSE -TanQuarter[13 - k]
=============================================================================
