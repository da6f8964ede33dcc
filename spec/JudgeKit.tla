------------------------------ MODULE JudgeKit ------------------------------
(* Validation of recorded calls of the helpers.  A case is                    *)
(* [id, grad, calls, obs]: obs has for every call the path, the gradient, the *)
(* gradient it was copied from and the result.                                *)
EXTENDS SvgKit, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, s, d
vars == <<c, i, s, d>>

If(b, x) == IF b THEN {x} ELSE {}
Calls == Cases[c].calls
Plain(g) == [g EXCEPT !.b = <<>>, !.units = 0]
RootDist(m, o) == Len(o) = 6 /\ \A k \in 1..6 : Near(m[k], o[k], 8 + Abs(m[k]) \div 1024)
Verdict(t, call, o) ==
  If(t.path # o.path, "path")
  \cup If(t.keep # o.keep, "copy")
  \cup If(t.g.b # o.g.b \/ t.g.units # o.g.units, "bounds")
  \cup If(Plain(t.g) # Plain(o.g), "gradient")
  \cup (CASE call.k = "extent" -> If(~RootDist(t.res, o.res), "matrix")
          [] call.k = "colour" -> If(t.res # o.res, "colour")
          [] call.k = "name" -> If(t.res # <<"">> /\ t.res # o.res, "name")
          [] OTHER -> {})
RECURSIVE Listed(_)
Listed(x) == IF x = {} THEN "" ELSE LET y == CHOOSE y \in x : TRUE IN y \o "," \o Listed(x \ {y})
Init == c \in 1..Len(Cases) /\ i = 0 /\ s = Start0(Cases[c].grad) /\ d = {}
Step == /\ i < Len(Calls)
        /\ i' = i + 1 /\ s' = Call(s, Calls[i + 1]) /\ d' = d \cup Verdict(s', Calls[i + 1], Cases[c].obs[i + 1])
        /\ UNCHANGED c
End == /\ i = Len(Calls) /\ i' = i + 1 /\ UNCHANGED <<c, s, d>> /\ PrintT("V|" \o ToString(Cases[c].id) \o "|" \o Listed(d))
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
