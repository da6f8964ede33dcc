---------------------------- MODULE JudgeColour ------------------------------
(* Observed colours against the grammar of SvgLex.  A case is a text and what *)
(* became of it as fill, stroke and stop colour.                              *)
(*   obs[i] = [ctx, err, t ("none", "color", other), c]                       *)
EXTENDS SvgLex, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, done
vars == <<c, done>>

\* a percentage between two colour values may be rounded either way
ColourNear(e, o, pct) == Len(o) = 4 /\ o[4] = 255 /\ \A i \in 1..3 : o[i] = e[i] \/ (pct /\ o[i] = e[i] + 1)
Percent(cs) == \E i \in 1..Len(cs) : cs[i] = 37
Stop(o) == o.ctx \in {"stop", "stopstyle"}

Agrees(cs, e, o) ==
  CASE o.out # "ok" -> FALSE
    [] e.class = "open" -> TRUE
    [] Stop(o) /\ (Trim(cs) # cs \/ e.t \in {"none", "url"}) -> TRUE          \* not specified
    [] e.class = "bad" -> o.err
    [] o.err -> FALSE
    [] e.t = "none" -> o.t = "none"
    [] e.t = "url" -> o.t = "color" /\ o.c = <<0, 0, 0, 255>>
    [] OTHER -> o.t = "color" /\ ColourNear(e.c, o.c, Percent(cs))

Wrong(x) == {x.obs[i].ctx : i \in {j \in 1..Len(x.obs) : ~Agrees(x.cs, ColourOf(x.cs), x.obs[j])}}
Names == <<"fill", "stroke", "stop", "fillstyle", "strokestyle", "stopstyle">>
RECURSIVE Listed(_, _)
Listed(d, k) == IF k > Len(Names) THEN "" ELSE (IF Names[k] \in d THEN Names[k] \o "," ELSE "") \o Listed(d, k + 1)

Init == c \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ PrintT("V|" \o ToString(Cases[c].id) \o "|" \o Listed(Wrong(Cases[c]), 1) \o "|" \o ColourOf(Cases[c].cs).class)
Spec == Init /\ [][Next]_vars
=============================================================================
