------------------------------- MODULE MCLex --------------------------------
(* All texts made of at most max fragments, their class in the grammar, and   *)
(* laws of the grammar.  The texts are printed for replay in the parser.      *)
EXTENDS SvgLex, Json, IOUtils

Input == ndJsonDeserialize(IOEnv.ALPHABET)[1]
Frags == Input.frags
VARIABLES word
vars == <<word>>

RECURSIVE TextOf(_)
TextOf(w) == IF w = <<>> THEN <<>> ELSE TextOf(Front(w)) \o Frags[Last(w)]
cs == TextOf(word)

Class(t) == CASE Input.kind = "list" -> Numbers(t, U).class
              [] Input.kind = "length" -> Length(t, U).class
              [] Input.kind = "fraction" -> Fractional(t, S).class
              [] Input.kind = "path" -> PathData(t).class
              [] Input.kind = "transform" -> TransformList(t).class
              [] Input.kind = "colour" -> ColourOf(t).class
              [] Input.kind = "dash" -> DashTexts(t).class

RECURSIVE Csv(_)
Csv(w) == IF w = <<>> THEN "" ELSE ToString(Head(w)) \o "," \o Csv(Tail(w))

Init == word = <<>>
Next == /\ Len(word) < Input.max
        /\ \E f \in 1..Len(Frags) : word' = Append(word, f)
Spec == Init /\ [][Next]_vars

Printed == PrintT("W|" \o Class(cs) \o "|" \o Csv(word))

Blank == <<32>>
\* outer white space never matters
TrimLaw == Class(Blank \o cs \o Blank) = Class(cs)
\* a list and a list make a list
Joined(f(_), x, y, sep) ==
  LET a == f(x) b == f(y) ab == f(x \o sep \o y)
  IN a.class = "good" /\ b.class = "good" => ab.class = "good" /\ ab.a = a.a \o b.a
Nums(t) == Numbers(t, U)
JoinLaw ==
  CASE Input.kind = "list" -> \A n \in 0..Len(word) :
                                Joined(Nums, TextOf(SubSeq(word, 1, n)), TextOf(SubSeq(word, n + 1, Len(word))), Blank)
    [] Input.kind = "transform" -> Joined(TransformList, cs, cs, <<>>)
    [] Input.kind = "path" -> Joined(PathData, cs, cs, <<>>)
    [] OTHER -> TRUE
\* a minus sign needs no separator before it
Minus(t) == <<45>> \o t
SignLaw == Input.kind = "list" /\ Nums(cs).class = "good" /\ cs # <<>> /\ Dotted(cs[1]) /\ Dotted(Last(cs)) =>
             Nums(cs \o Minus(cs)).a = Nums(cs \o Blank \o Minus(cs)).a
\* letter case does not matter for a colour that has a value
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
CaseLaw == Input.kind = "colour" /\ ColourOf(cs).class = "good" /\ ~StartsWith(Trim(LowerAll(cs)), RgbHead) /\ ColourOf(cs).t # "url" =>
             ColourOf([i \in 1..Len(cs) |-> Upper(cs[i])]) = ColourOf(cs)
RangeLaw == Input.kind = "colour" /\ ColourOf(cs).t = "rgb" =>
              Len(ColourOf(cs).c) = 3 /\ \A i \in 1..3 : ColourOf(cs).c[i] \in 0..255
\* a percentage of nothing and a length of nothing are nothing; units do not change signs
LengthLaw == Input.kind = "length" /\ Length(cs, U).class = "good" /\ ~IsSign(At(Trim(cs), 1)) =>
               Length(Minus(Trim(cs)), U) = [Length(cs, U) EXCEPT !.n = -@]
Laws == TrimLaw /\ JoinLaw /\ SignLaw /\ CaseLaw /\ RangeLaw /\ LengthLaw
=============================================================================
