------------------------------ MODULE JudgeMat ------------------------------
(* Validation of the matrix API.  A case is [id, fns, p, obs]: a list of      *)
(* transform functions, a point in 1/U and what the API made of them.         *)
EXTENDS SvgMatrix, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done

If(b, x) == IF b THEN {x} ELSE {}
Far(m) == Max2(Abs(m[5]), Abs(m[6]))
Big(m) == Max2(Max2(Abs(m[1]), Abs(m[2])), Max2(Abs(m[3]), Abs(m[4])))
\* slack of the image of a point near the origin: the factors are rounded
PtSlack(m, p) == 4 + Far(m) \div 512 + Big(m) \div 512 + MulDiv(Max2(Abs(p[1]), Abs(p[2])), Big(m) \div 256 + 12, S)
\* twice the area of the image of the unit square, in 1/S
Det(a) == MulDiv(a[1], a[4], S) - MulDiv(a[2], a[3], S)
\* small matrices: the determinant is clear of the rounding of the factors and
\* not small for the size of the matrix
Shaped(a) == Big(a) <= 30000 /\ LET det == a[1] * a[4] - a[2] * a[3]
                               IN Abs(det) >= Max2(48 * Big(a), (Big(a) * Big(a)) \div 64) /\ det # 0
IdNear(o, t) == \A i \in 1..6 : Near(o[i], Id[i], t)
Diff(k) ==
  LET m == ListMatrix(Id, k.fns)
      o == k.obs
      at == Apply(m, k.p[1], k.p[2])
      sw == Apply(m, k.p[2], k.p[1])
      t == PtSlack(m, k.p)
      regular == Abs(Det(m)) >= 64 + Big(m) \div 256 \/ Shaped(m)
  IN If(~MatrixNear(m, o.m), "functions")
     \cup If(~MatrixNear(m, o.left) \/ ~MatrixNear(m, o.right), "product")
     \cup If(~MatrixNear(m, o.ida) \/ ~MatrixNear(m, o.aid) \/ o.id # Id, "identity")
     \cup If(~NearSeq(o.pt, at, t) \/ ~NearSeq(o.seq, at, t), "point")
     \cup If(~NearSeq(o.vec, ApplyVec(m, k.p[1], k.p[2]), t), "vector")
     \cup If(~NearSeq(o.fix, o.pt, 2) \/ ~NearSeq(o.fixsw, sw, t) \/ ~NearSeq(o.mt, o.fix, 1) \/ ~NearSeq(o.lt, o.fix, 1)
             \/ ~NearSeq(o.qt, o.fix \o o.fixsw, 1) \/ ~NearSeq(o.ct, o.fix \o o.fixsw \o o.fix, 1), "fixed")
     \cup If(regular /\ (~IdNear(o.ainv, 2) \/ ~IdNear(o.inva, 2) \/ ~NearSeq(o.back, k.p, 2)), "inverse")
     \cup If(~Near(o.lws, LineScale(m), 12 + Big(m) \div 256), "scale")
     \cup If(~o.same, "changed")
RECURSIVE Listed(_)
Listed(d) == IF d = {} THEN "" ELSE LET x == CHOOSE x \in d : TRUE IN x \o "," \o Listed(d \ {x})
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ PrintT("V|" \o ToString(Cases[c].id) \o "|" \o Listed(Diff(Cases[c])))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
