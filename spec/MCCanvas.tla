------------------------------ MODULE MCCanvas -------------------------------
(* All short sequences of calls.  The painter of this model works as the      *)
(* design of the back ends has it: a context holds whatever the last path     *)
(* left in it, a path that shows sets all of it again before it paints, a     *)
(* path that does not show leaves the context alone.  The law says that the   *)
(* canvas is then the one of SvgCanvas.  Sequences are printed for replay.    *)
EXTENDS SvgCanvas, Json, IOUtils

Conf == ndJsonDeserialize(IOEnv.ALPHABET)[1]
Paths == Conf.paths
Ids == 1..Len(Paths)
Lists == UNION {[1..n -> Ids] : n \in 0..Conf.list}
CallsOf == [keep : BOOLEAN, mute : BOOLEAN, list : Lists]

VARIABLES word, canvas, ctx, key
vars == <<word, canvas, ctx, key>>
Blank == 0        \* the state of a new context
\* painting path k: the state is set, then used
RECURSIVE Paint(_, _, _, _)
Paint(cv, cx, list, mute) ==
  IF list = <<>> THEN <<cv, cx>>
  ELSE LET k == Head(list) IN
       IF ~Shows(Paths[k]) THEN Paint(cv, cx, Tail(list), mute)
       ELSE LET set == k                            \* overwrites cx
            IN Paint(IF mute THEN cv ELSE Append(cv, <<k, set>>), set, Tail(list), mute)
Size == LET f[i \in 0..Len(word)] == IF i = 0 THEN 0 ELSE f[i - 1] + Len(word[i].list) IN f[Len(word)]
Init == word = <<>> /\ canvas = <<>> /\ ctx = Blank /\ key = <<>>
Next == /\ Len(word) < Conf.calls
        /\ \E c \in CallsOf :
             /\ Size + Len(c.list) <= Conf.size
             /\ (c.mute \/ c.keep => word # <<>> \/ c.mute)     \* nothing to keep at first
             /\ (c.list = <<>> => ~c.mute)
             /\ LET r == Paint(canvas, IF c.keep THEN ctx ELSE Blank, c.list, c.mute)
                IN canvas' = r[1] /\ ctx' = r[2]
             /\ key' = After(Paths, key, c)
             /\ word' = Append(word, c)
Spec == Init /\ [][Next]_vars

RECURSIVE List(_)
List(l) == IF l = <<>> THEN "" ELSE ToString(Head(l)) \o "." \o List(Tail(l))
RECURSIVE Code(_)
Code(w) == IF w = <<>> THEN "" ELSE (IF Head(w).keep THEN "k" ELSE "n") \o (IF Head(w).mute THEN "m" ELSE "p") \o List(Head(w).list) \o "," \o Code(Tail(w))
Printed == word # <<>> => PrintT("W|canvas|" \o List(key) \o "|" \o Code(word))
-----------------------------------------------------------------------------
\* the canvas holds the marks in order, each painted with its own state
Composed == /\ [i \in 1..Len(canvas) |-> canvas[i][1]] = key
            /\ \A i \in 1..Len(canvas) : canvas[i][2] = canvas[i][1]
\* paint is never taken away, and mute or invisible calls add none
Grows == [][/\ SubSeq(canvas', 1, Len(canvas)) = canvas
            /\ LET c == word'[Len(word')] IN (c.mute \/ \A i \in 1..Len(c.list) : ~Shows(Paths[c.list[i]])) => canvas' = canvas]_vars
=============================================================================
