------------------------------ MODULE JudgeText ------------------------------
(* Trace validation below the level of typed attributes: the events carry the *)
(* characters of the attribute values, and the specification reads them by    *)
(* its own grammar before it takes the step of SvgDoc.                        *)
EXTENDS SvgText, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, i, st, done
vars == <<c, i, st, done>>

Init == c \in 1..Len(Cases) /\ i = 1 /\ st = Start(Cases[c].mode) /\ done = FALSE
Verdict(f, d) == "V|" \o ToString(Cases[c].id) \o "|" \o Listed(d, 1) \o "|" \o ToString(Len(f.paths)) \o "|" \o ToString(f.warns) \o "|" \o (IF f.err THEN "E" ELSE "") \o "|"
                 \o ToString(FirstBad(f.paths, Cases[c].obs.doc.paths))
Stop(f, d) == done' = TRUE /\ PrintT(Verdict(f, d)) /\ st' = Start("-") /\ UNCHANGED <<c, i>>

Unclear == ~done /\ i <= Len(Cases[c].ev) /\ ~st.err /\ OpenText(Cases[c].ev[i]) /\ Stop(st, {"witness"})
Expanding == ~done /\ st.agenda # <<>> /\ st' = Expand(st) /\ UNCHANGED <<c, i, done>>
Consuming == /\ ~done /\ st.agenda = <<>> /\ ~st.err /\ i <= Len(Cases[c].ev) /\ ~OpenText(Cases[c].ev[i])
             /\ st' = Step(st, LexEvent(Cases[c].ev[i])) /\ i' = i + 1 /\ UNCHANGED <<c, done>>
Finishing == /\ ~done /\ st.agenda = <<>> /\ (st.err \/ i > Len(Cases[c].ev))
             /\ LET f == IF st.err THEN st ELSE Finish(st)
                IN Stop(f, If(~Witnessed(f), "witness") \cup Diff(f, Cases[c].obs))
Next == Unclear \/ Expanding \/ Consuming \/ Finishing
Spec == Init /\ [][Next]_vars
=============================================================================
