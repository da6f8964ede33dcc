-------------------------------- MODULE MCMat --------------------------------
(* Products of transform functions, built one function at a time on the       *)
(* right; the algebra of the affine maps is checked on every product, and     *)
(* every product is printed to be repeated with the matrix API.               *)
EXTENDS SvgMatrix, Json, IOUtils

Conf == ndJsonDeserialize(IOEnv.ALPHABET)[1]
Fns == Conf.fns
VARIABLES word, m
vars == <<word, m>>
List(w) == [i \in 1..Len(w) |-> Fns[w[i]]]
Code(w) == FoldLeft(LAMBDA a, i : a \o ToString(i) \o ",", "", w)
Init == word = <<>> /\ m = Id
Next == /\ Len(word) < Conf.max
        /\ \E i \in 1..Len(Fns) : /\ word' = Append(word, i) /\ m' = FnApply(m, Fns[i])
                                  /\ \A k \in 1..4 : Abs(m'[k]) <= Conf.big * S      \* the arithmetic of TLC
                                  /\ PrintT("W|mat|" \o Code(word'))
Spec == Init /\ [][Next]_vars

Close(a, b, t) == \A i \in 1..6 : Near(a[i], b[i], t)
Single(t) == FnApply(Id, t)
RECURSIVE Right(_)
\* the product bracketed from the right
Right(ts) == IF ts = <<>> THEN Id ELSE Mul(Single(Head(ts)), Right(Tail(ts)))
Bounded == \A i \in 1..Len(word), j \in 1..Len(word) :
             i > j \/ \A k \in 1..4 : Abs(ListMatrix(Id, SubSeq(List(word), i, j))[k]) <= 30 * S
Assoc == Bounded => Close(m, Right(List(word)), 60)
Neutral == Mul(m, Id) = m /\ Mul(Id, m) = m
\* the functions act one after the other, the last one first
RECURSIVE Through(_, _)
Through(ts, p) == IF ts = <<>> THEN p ELSE Through(Front(ts), Apply(Single(Last(ts)), p[1], p[2]))
Points == { <<0, 0>>, <<64, 0>>, <<0, 64>>, <<192, -320>> }
Composes == \A p \in Points : NearSeq(Through(List(word), p), Apply(m, p[1], p[2]), 60)
\* vectors are differences of points
Vectors == \A p \in Points, q \in Points :
             LET d == Apply(m, p[1], p[2]) e == Apply(m, q[1], q[2]) v == ApplyVec(m, p[1] - q[1], p[2] - q[2])
             IN Near(v[1], d[1] - e[1], 3) /\ Near(v[2], d[2] - e[2], 3)
\* the inverse of a function undoes it
Undo(t) == LET a == t.a IN
  CASE t.f = "translate" -> [t EXCEPT !.a = <<-a[1], -a[2]>>]
    [] t.f = "rotate" -> [t EXCEPT !.a = [@ EXCEPT ![1] = -a[1]]]
    [] t.f = "scale" -> [t EXCEPT !.a = <<Sgn(a[1]) * MulDiv(S, S, Abs(a[1])), Sgn(a[2]) * MulDiv(S, S, Abs(a[2]))>>]
    [] t.f \in {"skewx", "skewy"} -> [t EXCEPT !.a = <<-a[1]>>]
    [] OTHER -> t
RECURSIVE Undone(_, _)
Undone(a, ts) == IF ts = <<>> THEN a ELSE Undone(FnApply(a, Undo(Last(ts))), Front(ts))
Inverses == (\A i \in 1..Len(word) : Fns[word[i]].f # "matrix") => Close(Undone(m, List(word)), Id, 90)
=============================================================================
