------------------------------ MODULE JudgeHist ------------------------------
(* Validation of recorded histories: the events have to be a behaviour of     *)
(* SvgHist.  A case is [id, base, ev]; base holds what a process of its own   *)
(* observed for each text, mode and way of drawing.                           *)
EXTENDS SvgHist, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, h, done
vars == <<c, i, h, done>>

Known(base) == [k \in 1..Len(base) |->
  CASE base[k].e = "parse" -> << <<"parse", ParseKey(base[k].d, base[k].mode), "">>, base[k].res>>
    [] base[k].e = "draw" -> << <<"draw", ParseKey(base[k].d, base[k].mode), base[k].how>>, base[k].res>>
    [] base[k].e = "globals" -> << <<"globals", "", "">>, base[k].res>>]
\* the action of SvgHist that an event stands for, if it is enabled
Enabled(e) ==
  CASE e.e = "begin" -> Free(h, e.s)
    [] e.e = "drawbegin" -> Free(h, e.s) /\ e.i + 1 \in 1..Len(h.docs)
    [] e.e \in {"give", "end"} -> Job(h, e.s).e = "parse"
    [] e.e \in {"drawgive", "drawend"} -> Job(h, e.s).e = "draw"
    [] e.e \in {"scribble", "snap"} -> e.i + 1 \in 1..Len(h.docs)
    [] e.e = "globals" -> TRUE
    [] OTHER -> FALSE
Action(e) ==
  CASE e.e = "begin" -> Begin(h, e.s, e.d, e.mode)
    [] e.e = "end" -> End(h, e.s, e.res, e.doc)
    [] e.e = "drawbegin" -> DrawBegin(h, e.s, e.i + 1, e.how)
    [] e.e = "drawend" -> DrawEnd(h, e.s, e.res)
    [] e.e = "scribble" -> Scribble(h, e.i + 1)
    [] e.e = "snap" -> Snap(h, e.i + 1, e.res)
    [] e.e = "globals" -> Globals(h, e.res)
    [] OTHER -> h

RECURSIVE Listed(_)
Listed(d) == IF d = {} THEN "" ELSE LET x == CHOOSE x \in d : TRUE IN x \o "," \o Listed(d \ {x})
Init == c \in 1..Len(Cases) /\ i = 1 /\ h = [Empty EXCEPT !.memo = Known(Cases[c].base)] /\ done = FALSE
Ev == Cases[c].ev
Take == ~done /\ i <= Len(Ev) /\ Enabled(Ev[i]) /\ h' = Action(Ev[i]) /\ i' = i + 1 /\ UNCHANGED <<c, done>>
\* the history ends when everything that was begun has ended
Stop == /\ ~done /\ ~(IF i > Len(Ev) THEN FALSE ELSE Enabled(Ev[i])) /\ done' = TRUE /\ UNCHANGED <<c, i, h>>
        /\ PrintT("V|" \o ToString(Cases[c].id) \o "|"
                  \o Listed(h.fault \cup (IF i > Len(Ev) /\ h.jobs = <<>> THEN {} ELSE {"stuck"})) \o "|" \o ToString(Len(h.docs)))
Spec == Init /\ [][Take \/ Stop]_vars
=============================================================================
