------------------------------ MODULE SvgCanvas ------------------------------
(* A canvas as the history of what was painted on it.  A call paints a list   *)
(* of paths, with a context of its own or one that was used before; it may be *)
(* mute (opacity zero).  Only the paths count that show, in their order: how  *)
(* they are spread over calls, which context is used and what was tried in    *)
(* between without showing leaves no trace.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* a path is [fill, line]: has it a fill, a stroke
Shows(p) == p.fill \/ p.line
Marks(paths, call) == IF call.mute THEN <<>> ELSE SelectSeq(call.list, LAMBDA k : Shows(paths[k]))
After(paths, canvas, call) == canvas \o Marks(paths, call)
=============================================================================
