------------------------------- MODULE MCText -------------------------------
(* All paths over an alphabet of operations: the path grammar can express     *)
(* every one of them, so a text form exists; every path is printed to be put  *)
(* through the text form of the implementation and back.                      *)
EXTENDS SvgPath, SvgLex, Json, IOUtils

Conf == ndJsonDeserialize(IOEnv.ALPHABET)[1]
Ops == Conf.ops
VARIABLE word
List(w) == [i \in 1..Len(w) |-> Ops[w[i]]]

\* a path begins with a moveto and goes on with a moveto after a close
MayFollow(w, i) == (w = <<>> \/ Ops[Last(w)].k = "Z") => Ops[i].k = "M"
Code(w) == FoldLeft(LAMBDA a, i : a \o ToString(i) \o ",", "", w)
Init == word = <<>>
Next == /\ Len(word) < Conf.max
        /\ \E i \in 1..Len(Ops) : /\ MayFollow(word, i) /\ word' = Append(word, i)
                                  /\ PrintT("W|ops|" \o Code(word'))
Spec == Init /\ [][Next]_word

-----------------------------------------------------------------------------
(* A text form with six decimals, in which every multiple of 1/64 is exact.   *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Six(n) == [i \in 1..6 |-> 48 + ((n \div Pow10(6 - i)) % 10)]
NumText(n) == (IF n < 0 THEN <<45>> ELSE <<>>) \o Dec(Abs(n) \div U) \o <<46>> \o Six((Abs(n) % U) * 15625)
Letter(k) == CASE k = "M" -> 77 [] k = "L" -> 76 [] k = "Q" -> 81 [] k = "C" -> 67 [] k = "Z" -> 90
RECURSIVE OpText(_, _)
OpText(o, i) == IF i > Len(o.p) THEN <<>> ELSE (IF i > 1 THEN <<44>> ELSE <<>>) \o NumText(o.p[i]) \o OpText(o, i + 1)
RECURSIVE PathText(_)
PathText(os) == IF os = <<>> THEN <<>> ELSE <<Letter(Head(os).k)>> \o OpText(Head(os), 1) \o PathText(Tail(os))

RoundTrip ==
  LET r == PathData(PathText(List(word)))
      p == Interp(r.a)
  IN r.class = "good" /\ ~p.err /\ p.warn = 0 /\ p.out = List(word)
=============================================================================
