----------------------------- MODULE JudgeModes -----------------------------
(* The error modes related to each other, for arbitrary input bytes.  Every   *)
(* case holds the observed results of parsing the same bytes in the ignoring, *)
(* the warning and the strict mode, and in the ignoring mode from a reader    *)
(* that fails after the last byte.  The relation is the one MCDoc proves of   *)
(* the specification (ModeLaw, Final, Stable).                                *)
(*   run = [err, nil, logs, h (hash of the document), ph (hashes of its paths)]*)
EXTENDS SvgNum, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
vars == <<c, done>>

If(x, a) == IF x THEN {a} ELSE {}
IsPrefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]

\* how a result may look in any mode
Outcome(r) == If(~r.err /\ r.nil, "nil")

Broken(x) ==
  IF x.out # "ok" THEN {x.out}
  ELSE LET i == x.runs[1] w == x.runs[2] s == x.runs[3] f == x.runs[4]
       IN Outcome(i) \cup Outcome(w) \cup Outcome(s)
          \cup If(~x.element /\ ~(i.err /\ w.err /\ s.err), "empty")
          \cup If(i.err # w.err, "result") \cup If(i.h # w.h, "document")
          \cup If(i.logs # 0 \/ s.logs # 0, "logs")
          \cup If(s.err # (i.err \/ w.logs > 0), "strict")
          \cup If(~s.err /\ s.h # i.h, "strictdoc")
          \* what was drawn before the failing element is still there
          \cup If(s.err /\ ~IsPrefix(IF s.ph = <<>> THEN <<>> ELSE Front(s.ph), i.ph), "salvage")
          \* a broken stream is a failure, with the paths read so far
          \cup If(~f.err \/ f.ph # i.ph, "fault")

Names == <<"panic", "hang", "nil", "empty", "result", "document", "logs", "strict", "strictdoc", "salvage", "fault">>
RECURSIVE Listed(_, _)
Listed(d, k) == IF k > Len(Names) THEN "" ELSE (IF Names[k] \in d THEN Names[k] \o "," ELSE "") \o Listed(d, k + 1)

Init == c \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("V|" \o ToString(Cases[c].id) \o "|" \o Listed(Broken(Cases[c]), 1))
Spec == Init /\ [][Next]_vars
=============================================================================
