------------------------------ MODULE JudgeDoc ------------------------------
(* Trace validation: every case is a sequence of XML events together with the *)
(* result observed when the implementation parsed the document they describe. *)
(* The specification consumes the events one by one; in the final state the   *)
(* observation has to agree with it.                                          *)
EXTENDS SvgAgree, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, i, st, done
vars == <<c, i, st, done>>

Init == c \in 1..Len(Cases) /\ i = 1 /\ st = Start(Cases[c].mode) /\ done = FALSE

Expanding == ~done /\ st.agenda # <<>> /\ st' = Expand(st) /\ UNCHANGED <<c, i, done>>
Consuming == /\ ~done /\ st.agenda = <<>> /\ ~st.err /\ i <= Len(Cases[c].ev)
             /\ st' = Step(st, Cases[c].ev[i]) /\ i' = i + 1 /\ UNCHANGED <<c, done>>
Verdict(f) == LET w == If(~Witnessed(f), "witness")
                  at == ToString(FirstBad(f.paths, Cases[c].obs.doc.paths))
              IN "V|" \o ToString(Cases[c].id) \o "|" \o Listed(w \cup Diff(f, Cases[c].obs), 1) \o "|"
                 \o ToString(Len(f.paths)) \o "|" \o ToString(f.warns) \o "|" \o (IF f.err THEN "E" ELSE "") \o "|" \o at
Finishing == /\ ~done /\ st.agenda = <<>> /\ (st.err \/ i > Len(Cases[c].ev))
             /\ done' = TRUE /\ UNCHANGED <<c, i>>
             /\ LET f == IF st.err THEN st ELSE Finish(st)
                IN PrintT(Verdict(f)) /\ st' = Start("-")
Next == Expanding \/ Consuming \/ Finishing
Spec == Init /\ [][Next]_vars
=============================================================================
