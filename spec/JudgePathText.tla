---------------------------- MODULE JudgePathText ----------------------------
(* Validation of the text form of a path: the text is path data by the        *)
(* grammar and means the path, and the parser reads the path back from it.    *)
(* A case is [id, ops, texts |-> <<[cs, err, n, back], ...>>].                *)
EXTENDS SvgPath, SvgLex, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done

Same(ops, obs) == /\ Len(obs) = Len(ops)
                  /\ \A i \in 1..Len(ops) : obs[i].k = ops[i].k /\ NearSeq(obs[i].p, ops[i].p, 1)
Diff(ops, t) ==
  LET r == PathData(t.cs)
      p == Interp(r.a)
  IN (IF r.class = "bad" THEN {"grammar"} ELSE {})
     \cup (IF r.class = "good" /\ (p.err \/ p.warn > 0 \/ ~Same(ops, p.out)) THEN {"meaning"} ELSE {})
     \cup (IF t.err THEN {"rejected"} ELSE {})
     \cup (IF ~t.err /\ (t.n # 1 \/ ~Same(ops, t.back)) THEN {"back"} ELSE {})
All(k) == UNION {Diff(k.ops, k.texts[i]) : i \in 1..Len(k.texts)}
RECURSIVE Listed(_)
Listed(d) == IF d = {} THEN "" ELSE LET x == CHOOSE x \in d : TRUE IN x \o "," \o Listed(d \ {x})
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ PrintT("V|" \o ToString(Cases[c].id) \o "|" \o Listed(All(Cases[c])))
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
