------------------------------- MODULE SvgLex -------------------------------
(* The lexical grammar: numbers, lengths, number lists, transform lists, path *)
(* data and colours, over sequences of character codes.                       *)
EXTENDS SvgNum, SvgColorNames

IsDigit(c) == c >= 48 /\ c <= 57
IsWs(c) == c \in {9, 10, 12, 13, 32}
IsLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsSign(c) == c \in {43, 45}
IsE(c) == c \in {69, 101}
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerAll(cs) == [i \in 1..Len(cs) |-> Lower(cs[i])]
At(cs, i) == IF i <= Len(cs) THEN cs[i] ELSE 0

RECURSIVE SkipWs(_, _)
SkipWs(cs, i) == IF IsWs(At(cs, i)) THEN SkipWs(cs, i + 1) ELSE i
\* comma-wsp?: white space with at most one comma
SkipSep(cs, i) == LET j == SkipWs(cs, i) IN IF At(cs, j) = 44 THEN SkipWs(cs, j + 1) ELSE j
RECURSIVE SkipDigits(_, _)
SkipDigits(cs, i) == IF IsDigit(At(cs, i)) THEN SkipDigits(cs, i + 1) ELSE i
RECURSIVE TrimEnd(_)
TrimEnd(cs) == IF cs # <<>> /\ IsWs(Last(cs)) THEN TrimEnd(Front(cs)) ELSE cs
Trim(cs) == SubSeq(TrimEnd(cs), SkipWs(cs, 1), Len(TrimEnd(cs)))

\* Value of the digits in cs[i..j-1], skipping the decimal point: <<v, n>> stands
\* for v * 10^n.  Digits after the first eight significant ones only count.
RECURSIVE Digits(_, _, _, _, _)
Digits(cs, i, j, v, n) ==
  IF i >= j THEN <<v, n>>
  ELSE IF ~IsDigit(cs[i]) THEN Digits(cs, i + 1, j, v, n)
  ELSE IF v > 9999999 THEN Digits(cs, i + 1, j, v, n + 1)
  ELSE Digits(cs, i + 1, j, 10 * v + cs[i] - 48, n)
Whole(cs, i, j) == LET d == Digits(cs, i, j, 0, 0) IN IF d[2] > 0 THEN 99999999 ELSE d[1]

\* A number starting at i: [ok, next, neg, m, e] with value (-1)^neg * m * 10^e.
NoNumber == [ok |-> FALSE, next |-> 0, neg |-> FALSE, m |-> 0, e |-> 0]
Number(cs, i) ==
  LET i0 == IF IsSign(At(cs, i)) THEN i + 1 ELSE i
      i1 == SkipDigits(cs, i0)
      frac == At(cs, i1) = 46 /\ IsDigit(At(cs, i1 + 1))
      i2 == IF frac THEN SkipDigits(cs, i1 + 1) ELSE i1
      x0 == IF IsSign(At(cs, i2 + 1)) THEN i2 + 2 ELSE i2 + 1
      isExp == IsE(At(cs, i2)) /\ IsDigit(At(cs, x0))
      i3 == IF isExp THEN SkipDigits(cs, x0) ELSE i2
      x == IF isExp THEN Whole(cs, x0, i3) * (IF At(cs, i2 + 1) = 45 THEN -1 ELSE 1) ELSE 0
      d == Digits(cs, i0, i2, 0, 0)
  IN IF i1 = i0 /\ ~frac THEN NoNumber
     ELSE [ok |-> TRUE, next |-> i3, neg |-> At(cs, i) = 45, m |-> d[1],
           e |-> x + d[2] - (IF frac THEN i2 - i1 - 1 ELSE 0)]

\* numbers of a magnitude the model computes with
Fits(n) ==
  \/ n.m = 0
  \/ n.e < -13
  \/ n.e < 0 /\ n.m \div Pow10(Min2(-n.e, 9)) <= 9999
  \/ n.e \in 0..4 /\ n.m <= 9999 \div Pow10(n.e)
\* a number that fits, in units of 1/k
Scaled(n, k) ==
  LET v == IF n.m = 0 \/ n.e < -13 \/ ~Fits(n) THEN 0
           ELSE IF n.e >= 0 THEN n.m * k * Pow10(n.e)
           ELSE IF n.e < -5 THEN MulDiv(RDiv(n.m, Pow10(-n.e - 5)), k, Pow10(5))
           ELSE MulDiv(n.m, k, Pow10(-n.e))
  IN IF n.neg THEN -v ELSE v

(* Texts outside the grammar fall into two classes: those that have to be     *)
(* rejected, and those a lenient reader may accept (a trailing comma, "5.",   *)
(* a lone plus sign, numbers of extreme magnitude), about which nothing is    *)
(* said: class "good", "bad" or "open".                                       *)
NumberChar(c) == IsDigit(c) \/ IsSign(c) \/ IsE(c) \/ c = 46
ListChar(c) == NumberChar(c) \/ IsWs(c) \/ c = 44
Dotted(c) == IsDigit(c) \/ c = 46
HopelessList(cs) ==
  \E i \in 1..Len(cs) :
    LET c == cs[i] p == IF i = 1 THEN 0 ELSE cs[i - 1] q == At(cs, i + 1)
    IN \/ ~ListChar(c)
       \/ c = 45 /\ ~Dotted(q)                                      \* a minus sign without a number
       \/ IsE(c) /\ ~(Dotted(p) /\ (IsDigit(q) \/ (IsSign(q) /\ IsDigit(At(cs, i + 2)))))
       \/ c = 46 /\ ~IsDigit(p) /\ ~IsDigit(q)

\* a list of numbers that extends to the end of cs: [class, a]
RECURSIVE NumberList(_, _, _, _)
NumberList(cs, i, k, acc) ==
  IF i > Len(cs) THEN [class |-> "good", a |-> acc]
  ELSE LET n == Number(cs, i)
           j == SkipSep(cs, n.next)
       IN IF ~n.ok \/ (j > Len(cs) /\ SkipWs(cs, n.next) <= Len(cs))      \* trailing comma
          THEN [class |-> IF HopelessList(cs) THEN "bad" ELSE "open", a |-> <<>>]
          ELSE IF ~Fits(n) THEN [class |-> "open", a |-> <<>>]
          ELSE NumberList(cs, j, k, Append(acc, Scaled(n, k)))
Numbers(cs, k) == NumberList(cs, SkipWs(cs, 1), k, <<>>)

\* a length: number and unit [ok, n, u], n in units of 1/k
UnitNames == << [u |-> "px", s |-> <<112, 120>>], [u |-> "in", s |-> <<105, 110>>],
                [u |-> "cm", s |-> <<99, 109>>], [u |-> "mm", s |-> <<109, 109>>],
                [u |-> "Q", s |-> <<81>>], [u |-> "pt", s |-> <<112, 116>>],
                [u |-> "pc", s |-> <<112, 99>>], [u |-> "%", s |-> <<37>>], [u |-> "", s |-> <<>>] >>
\* a lenient reader may also accept a blank before the unit, other letter case
\* and the relative units of CSS
OtherUnits == { <<101, 109>>, <<101, 120>>, <<99, 104>>, <<114, 101, 109>>, <<118, 119>>, <<118, 104>> }
OpenUnit(rest) ==
  LET r == LowerAll(Trim(rest))
  IN \/ (\E i \in 1..Len(UnitNames) : LowerAll(UnitNames[i].s) = r)
     \/ r \in OtherUnits
\* a number as long as possible at the beginning of cs, with a lenient decimal point
LooseEnd(cs, n) == IF At(cs, n.next) = 46 THEN n.next + 1 ELSE n.next
\* Absolute units are converted to pixels at once, from a value in 1/S.
Pixels(u) == CASE u = "in" -> <<96, 1>> [] u = "cm" -> <<4800, 127>> [] u = "mm" -> <<480, 127>>
               [] u = "Q" -> <<120, 127>> [] u = "pt" -> <<4, 3>> [] u = "pc" -> <<16, 1>> [] OTHER -> <<0, 0>>
Length(text, k) ==
  LET cs == Trim(text)
      n == Number(cs, 1)
      rest == SubSeq(cs, n.next, Len(cs))
      loose == SubSeq(cs, LooseEnd(cs, n), Len(cs))
      us == {i \in 1..Len(UnitNames) : UnitNames[i].s = rest}
      no(c) == [class |-> c, n |-> 0, u |-> ""]
      u == UnitNames[CHOOSE i \in us : TRUE].u
      f == Pixels(u)
      fine == Scaled(n, S)
  IN IF ~n.ok THEN no("bad")
     ELSE IF us = {} THEN no(IF OpenUnit(rest) \/ OpenUnit(loose) \/ IsE(At(loose, 1)) THEN "open" ELSE "bad")
     ELSE IF ~Fits(n) \/ (n.m # 0 /\ Abs(fine) < S \div U) THEN no("open")              \* huge or tiny
     ELSE IF f[1] = 0 \/ k # U THEN [class |-> "good", n |-> Scaled(n, k), u |-> u]
     ELSE IF Abs(fine) > 2000 * S THEN no("open")
     ELSE [class |-> "good", n |-> Sgn(fine) * RDiv(MulDiv(Abs(fine), f[1], f[2]), S \div U), u |-> "px"]

\* a number or percentage: [class, n, pct], n in units of 1/k
Fractional(text, k) ==
  LET l == Length(text, k)
  IN IF l.class # "good" THEN [class |-> l.class, n |-> 0, pct |-> FALSE]
     ELSE IF l.u \notin {"", "%"} THEN [class |-> "open", n |-> 0, pct |-> FALSE]
     ELSE [class |-> "good", n |-> l.n, pct |-> l.u = "%"]

\* lengths separated by blanks and commas
RECURSIVE Fields(_, _, _, _)
Fields(cs, i, from, acc) ==
  LET sep == i > Len(cs) \/ IsWs(At(cs, i)) \/ At(cs, i) = 44
      acc1 == IF sep /\ i > from THEN Append(acc, SubSeq(cs, from, i - 1)) ELSE acc
  IN IF i > Len(cs) THEN acc1 ELSE Fields(cs, i + 1, IF sep THEN i + 1 ELSE from, acc1)
DashTexts(text) ==
  LET ls == [i \in 1..Len(Fields(text, 1, 1, <<>>)) |-> Length(Fields(text, 1, 1, <<>>)[i], U)]
      commas == Cardinality({i \in 1..Len(text) : text[i] = 44})
  IN [class |-> IF \E i \in 1..Len(ls) : ls[i].class = "bad" THEN "bad"
                ELSE IF ls = <<>> \/ commas >= Len(ls) \/ \E i \in 1..Len(ls) : ls[i].class = "open" THEN "open"
                ELSE "good",
      a |-> [i \in 1..Len(ls) |-> [t |-> "len", n |-> ls[i].n, u |-> ls[i].u]]]

-----------------------------------------------------------------------------
(* Path data.  Arguments in 1/U; the flags of an arc are single characters.   *)
CommandName(c) == CASE Lower(c) = 109 -> "M" [] Lower(c) = 108 -> "L" [] Lower(c) = 104 -> "H"
                    [] Lower(c) = 118 -> "V" [] Lower(c) = 99 -> "C" [] Lower(c) = 115 -> "S"
                    [] Lower(c) = 113 -> "Q" [] Lower(c) = 116 -> "T" [] Lower(c) = 97 -> "A"
                    [] Lower(c) = 122 -> "Z" [] OTHER -> "?"

IsCommand(c) == IsLetter(c) /\ ~IsE(c)
RECURSIVE NextCommand(_, _)
NextCommand(cs, i) == IF i > Len(cs) \/ IsCommand(At(cs, i)) THEN i ELSE NextCommand(cs, i + 1)

RECURSIVE ArcArgs(_, _, _)
\* the arguments of an arc: [class, a]
ArcArgs(cs, i, acc) ==
  IF i > Len(cs) THEN [class |-> "good", a |-> acc]
  ELSE LET n == Number(cs, i)
           flag == Len(acc) % 7 \in {3, 4}
           next == IF flag THEN i + 1 ELSE n.next
           ok == IF flag THEN At(cs, i) \in {48, 49} ELSE n.ok
       IN IF ~ok \/ (SkipSep(cs, next) > Len(cs) /\ SkipWs(cs, next) <= Len(cs))
          THEN [class |-> IF HopelessList(cs) THEN "bad" ELSE "open", a |-> <<>>]
          ELSE IF ~flag /\ ~Fits(n) THEN [class |-> "open", a |-> <<>>]
          ELSE ArcArgs(cs, SkipSep(cs, next),
                       Append(acc, IF flag THEN At(cs, i) - 48 ELSE Scaled(n, IF Len(acc) % 7 = 2 THEN 1 ELSE U)))
RECURSIVE PathCommands(_, _, _)
PathCommands(cs, i, acc) ==
  IF i > Len(cs) THEN [class |-> "good", a |-> acc]
  ELSE IF ~IsCommand(At(cs, i)) THEN [class |-> "bad", a |-> acc]
  ELSE LET j == NextCommand(cs, i + 1)
           seg == SubSeq(cs, i + 1, j - 1)
           name == CommandName(At(cs, i))
           r == IF name = "A" THEN ArcArgs(seg, SkipWs(seg, 1), <<>>) ELSE Numbers(seg, U)
       IN IF r.class # "good" THEN [class |-> r.class, a |-> acc]
          ELSE PathCommands(cs, j, Append(acc, [c |-> name, rel |-> At(cs, i) >= 97, a |-> r.a, w |-> <<>>]))
\* [class, a]: the commands; a bad text keeps those before the malformed one
PathData(cs) == PathCommands(cs, SkipWs(cs, 1), <<>>)

-----------------------------------------------------------------------------
(* Transform lists                                                            *)
FnNames == << [f |-> "translate", s |-> <<116, 114, 97, 110, 115, 108, 97, 116, 101>>],
              [f |-> "scale", s |-> <<115, 99, 97, 108, 101>>], [f |-> "rotate", s |-> <<114, 111, 116, 97, 116, 101>>],
              [f |-> "skewx", s |-> <<115, 107, 101, 119, 120>>], [f |-> "skewy", s |-> <<115, 107, 101, 119, 121>>],
              [f |-> "matrix", s |-> <<109, 97, 116, 114, 105, 120>>] >>
FnName(cs) == LET is == {i \in 1..Len(FnNames) : FnNames[i].s = LowerAll(cs)}
              IN IF is = {} THEN "?" ELSE FnNames[CHOOSE i \in is : TRUE].f
RECURSIVE Find(_, _, _)
Find(cs, i, c) == IF i > Len(cs) \/ cs[i] = c THEN i ELSE Find(cs, i + 1, c)
\* the model knows the angles that are whole multiples of 15 degrees
Angled(f, a) == \/ f \notin {"rotate", "skewx", "skewy"} \/ a = <<>>
                \/ a[1] % (15 * S) = 0 /\ (f # "rotate" => a[1] % (180 * S) # 90 * S)
RECURSIVE TransformFns(_, _, _)
TransformFns(cs, i, acc) ==
  IF i > Len(cs) THEN [class |-> "good", a |-> acc]
  ELSE LET o == Find(cs, i, 40)
           c == Find(cs, i, 41)
           args == Numbers(SubSeq(cs, o + 1, c - 1), S)
           name == Trim(SubSeq(cs, i, o - 1))
           sep == SkipSep(cs, c + 1)
       IN IF o > Len(cs) \/ c > Len(cs) \/ c < o THEN [class |-> "bad", a |-> <<>>]
          ELSE IF args.class = "bad"
          THEN [class |-> IF 112 \in {cs[k] : k \in (o + 1)..(c - 1)} THEN "open" ELSE "bad", a |-> <<>>]   \* px is tolerated
          ELSE IF FnName(name) = "?"
          THEN [class |-> IF \A k \in 1..Len(name) : IsLetter(name[k]) THEN "bad" ELSE "open", a |-> <<>>]
          ELSE IF args.class = "open" \/ (sep > Len(cs) /\ SkipWs(cs, c + 1) <= Len(cs)) \/ ~Angled(FnName(name), args.a)
          THEN [class |-> "open", a |-> <<>>]
          ELSE TransformFns(cs, sep, Append(acc, [f |-> FnName(name), a |-> args.a]))
TransformList(cs) == TransformFns(cs, SkipWs(cs, 1), <<>>)

-----------------------------------------------------------------------------
(* Colours: [class, t |-> "rgb" | "none" | "url", c, pct]                     *)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE Lower(c) - 87
IsHex(c) == IsDigit(c) \/ (Lower(c) >= 97 /\ Lower(c) <= 102)
StartsWith(cs, p) == Len(cs) >= Len(p) /\ SubSeq(cs, 1, Len(p)) = p
Rgb(c) == [class |-> "good", t |-> "rgb", c |-> c]
Other(class, t) == [class |-> class, t |-> t, c |-> <<>>]

\* one component of rgb(): a whole number, possibly a percentage: [ok, pct, n]
Component(text) ==
  LET cs == Trim(text)
      i0 == IF IsSign(At(cs, 1)) THEN 2 ELSE 1
      i1 == SkipDigits(cs, i0)
      pct == i1 = Len(cs) /\ At(cs, i1) = 37
      n == Whole(cs, i0, i1)
  IN [ok |-> i1 > i0 /\ (pct \/ i1 = Len(cs) + 1), pct |-> pct, n |-> IF At(cs, 1) = 45 THEN -n ELSE n,
      huge |-> i1 - i0 > 18]
\* a percentage between two values of the colour may be rounded either way
ComponentValue(c) == IF c.pct THEN (Clamp(c.n, 0, 100) * 255) \div 100 ELSE Clamp(c.n, 0, 255)
RECURSIVE SplitComma(_, _, _)
SplitComma(cs, i, from) ==
  IF i > Len(cs) THEN << SubSeq(cs, from, Len(cs)) >>
  ELSE IF cs[i] = 44 THEN << SubSeq(cs, from, i - 1) >> \o SplitComma(cs, i + 1, i + 1)
  ELSE SplitComma(cs, i + 1, from)
\* components a lenient reader may accept: fractions, exponents, blanks before %
OpenComponent(text) ==
  LET cs == Trim(text)
      n == Number(cs, 1)
      rest == Trim(SubSeq(cs, LooseEnd(cs, n), Len(cs)))
  IN n.ok /\ rest \in {<<>>, <<37>>}

UrlHead == <<117, 114, 108, 40>>
RgbHead == <<114, 103, 98>>
ColourOf(text) ==
  LET cs == Trim(text)
      low == LowerAll(cs)
      kw == {i \in 1..Len(Keywords) : Keywords[i].n = low}
      n == Len(cs)
  IN CASE cs = <<>> -> Other("bad", "")
       [] low = <<110, 111, 110, 101>> -> Other("good", "none")
       [] kw # {} -> Rgb(Keywords[CHOOSE i \in kw : TRUE].c)
       [] StartsWith(low, UrlHead) ->
            IF ~\E i \in 1..n : cs[i] = 41 THEN Other("bad", "")
            ELSE IF StartsWith(cs, UrlHead) /\ Find(cs, 1, 41) = n THEN Other("good", "url")
            ELSE Other("open", "")                                            \* fallback colours
       [] cs[1] = 35 ->
            IF n \notin {4, 7} \/ \E i \in 2..n : ~IsHex(cs[i])
            THEN Other(IF n \in {5, 9} THEN "open" ELSE "bad", "")             \* colours with alpha
            ELSE IF n = 4 THEN Rgb([i \in 1..3 |-> 17 * HexVal(cs[i + 1])])
            ELSE Rgb([i \in 1..3 |-> 16 * HexVal(cs[2 * i]) + HexVal(cs[2 * i + 1])])
       [] StartsWith(cs, Append(RgbHead, 40)) ->
            LET parts == SplitComma(SubSeq(cs, 5, n - 1), 1, 1)
                comp == [i \in 1..Len(parts) |-> Component(parts[i])]
            IN IF Last(cs) # 41 \/ Len(parts) # 3 THEN Other("bad", "")
               ELSE IF \E i \in 1..3 : ~comp[i].ok
               THEN Other(IF \A i \in 1..3 : OpenComponent(parts[i]) THEN "open" ELSE "bad", "")
               ELSE IF \E i \in 1..3 : comp[i].huge THEN Other("open", "")
               ELSE Rgb([i \in 1..3 |-> ComponentValue(comp[i])])
       [] StartsWith(low, RgbHead) -> Other("open", "")
       [] OTHER -> Other("bad", "")
=============================================================================
