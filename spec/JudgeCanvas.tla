----------------------------- MODULE JudgeCanvas -----------------------------
(* Validation of recorded sequences of draws.  A case is                      *)
(*   [id, out, same, paths, runs], a run [back, err, calls, res]              *)
(* with the canvas (opaque) after each of its calls; res[1] is the blank one. *)
(* What is painted is whatever the first run with the same marks painted; it  *)
(* has to be the same in all others.  same: the document did not change.      *)
EXTENDS SvgCanvas, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, r, i, key, memo, fault, done
vars == <<c, r, i, key, memo, fault, done>>

Runs == Cases[c].runs
Learn(k, v) ==
  IF \E m \in memo : m[1] = k THEN IF <<k, v>> \in memo THEN memo' = memo /\ fault' = fault ELSE memo' = memo /\ fault' = fault \cup {"canvas"}
  ELSE memo' = memo \cup {<<k, v>>} /\ fault' = fault
If(b, x) == IF b THEN {x} ELSE {}

Init == c \in 1..Len(Cases) /\ r = 1 /\ i = 0 /\ key = <<>> /\ memo = {} /\ done = FALSE
        /\ fault = IF Cases[c].out # "ok" THEN {Cases[c].out} ELSE If(~Cases[c].same, "document")
Start == /\ i = 0 /\ key' = <<>> /\ i' = 1 /\ Learn(<<Runs[r].back, <<>>>>, Runs[r].res[1]) /\ UNCHANGED <<c, r, done>>
Call == /\ i \in 1..Len(Runs[r].calls)
        /\ key' = After(Cases[c].paths, key, Runs[r].calls[i])
        /\ Learn(<<Runs[r].back, key'>>, Runs[r].res[i + 1])
        /\ i' = i + 1 /\ UNCHANGED <<c, r, done>>
NextRun == /\ i > Len(Runs[r].calls) /\ r' = r + 1 /\ i' = 0 /\ key' = <<>> /\ fault' = fault \cup If(Runs[r].err, "error") /\ UNCHANGED <<c, memo, done>>
RECURSIVE Listed(_)
Listed(d) == IF d = {} THEN "" ELSE LET x == CHOOSE x \in d : TRUE IN x \o "," \o Listed(d \ {x})
Stop == /\ r > Len(Runs) /\ done' = TRUE /\ UNCHANGED <<c, r, i, key, memo, fault>>
        /\ PrintT("V|" \o ToString(Cases[c].id) \o "|" \o Listed(fault) \o "|" \o ToString(Cardinality(memo)))
Next == ~done /\ (IF r > Len(Runs) THEN Stop ELSE Start \/ Call \/ NextRun)
Spec == Init /\ [][Next]_vars
=============================================================================
