------------------------------- MODULE MCHist -------------------------------
(* All small histories: parses in several slots, released chunk by chunk,     *)
(* draws released paint by paint, scribbling.  The calls of this model work   *)
(* as the design of the code has it: a parse folds its chunks into a state of *)
(* its own that it hands out at the end, a draw folds the paths of its        *)
(* document into a canvas of its own.  The laws say that this design makes    *)
(* every history one of SvgHist.  Complete histories are printed for replay.  *)
EXTENDS SvgHist, Json, IOUtils

Conf == ndJsonDeserialize(IOEnv.ALPHABET)[1]
Slots == 1..Conf.slots
Texts == 1..Conf.texts
VARIABLES word, slot, out, h
vars == <<word, slot, out, h>>

Chunks == Conf.chunks          \* reads until the end of the stream is reported
Paints == Conf.paints          \* steps of a draw
Say(x) == word' = Append(word, x)
Count(e) == Len(SelectSeq(word, LAMBDA x : x[1] = e))
Idle == [e |-> "idle"]
Meaning(d) == [k \in 1..Chunks |-> <<d, k>>]
Picture(doc) == [k \in 1..Paints |-> <<doc, k>>]

Init == word = <<>> /\ slot = [s \in Slots |-> Idle] /\ out = <<>> /\ h = Empty
\* slots are taken in order: they are symmetric
Lowest(s) == slot[s] = Idle /\ \A t \in Slots : t < s => slot[t] # Idle
BeginA == \E s \in Slots, d \in Texts :
  /\ Lowest(s) /\ Count("b") < Conf.parses
  /\ slot' = [slot EXCEPT ![s] = [e |-> "parse", d |-> d, acc |-> <<>>]]
  /\ h' = Begin(h, s, d, 0) /\ Say(<<"b", s, d>>) /\ UNCHANGED out
GiveA == \E s \in Slots :
  /\ slot[s].e = "parse"
  /\ LET acc == Append(slot[s].acc, <<slot[s].d, Len(slot[s].acc) + 1>>)
     IN IF Len(acc) = Chunks
        THEN /\ slot' = [slot EXCEPT ![s] = Idle] /\ out' = Append(out, acc)
             /\ h' = End(h, s, acc, acc)
        ELSE slot' = [slot EXCEPT ![s].acc = acc] /\ UNCHANGED <<out, h>>
  /\ Say(<<"g", s, 0>>)
ScribbleA == \E i \in 1..Len(out) :
  /\ Count("s") < Conf.scribbles /\ h.docs[i].own
  /\ ~\E s \in Slots : slot[s].e = "draw" /\ slot[s].of = i       \* not while it is being drawn
  /\ out' = [out EXCEPT ![i] = <<"scribbled">>] /\ h' = Scribble(h, i) /\ Say(<<"s", i, 0>>) /\ UNCHANGED slot
DrawA == \E s \in Slots, i \in 1..Len(out) :
  /\ Lowest(s) /\ Count("d") < Conf.draws /\ h.docs[i].own
  /\ slot' = [slot EXCEPT ![s] = [e |-> "draw", of |-> i, acc |-> <<>>]]
  /\ h' = DrawBegin(h, s, i, "how") /\ Say(<<"d", s, i>>) /\ UNCHANGED out
PaintA == \E s \in Slots :
  /\ slot[s].e = "draw"
  /\ LET acc == Append(slot[s].acc, <<out[slot[s].of], Len(slot[s].acc) + 1>>)
     IN IF Len(acc) = Paints
        THEN slot' = [slot EXCEPT ![s] = Idle] /\ h' = DrawEnd(h, s, acc)
        ELSE slot' = [slot EXCEPT ![s].acc = acc] /\ UNCHANGED h
  /\ Say(<<"p", s, 0>>) /\ UNCHANGED out
Next == BeginA \/ GiveA \/ ScribbleA \/ DrawA \/ PaintA
Spec == Init /\ [][Next]_vars

Complete == /\ Count("b") = Conf.parses /\ \A s \in Slots : slot[s] = Idle
            /\ Count("s") = Conf.scribbles /\ Count("d") = Conf.draws
RECURSIVE Code(_)
Code(w) == IF w = <<>> THEN "" ELSE Head(w)[1] \o "." \o ToString(Head(w)[2]) \o "." \o ToString(Head(w)[3]) \o "," \o Code(Tail(w))
Printed == Complete => PrintT("W|hist|" \o Code(word))
-----------------------------------------------------------------------------
(* Laws                                                                       *)
Pure == h.fault = {}
Snaps == \A i \in 1..Len(out) : Snap(h, i, out[i]).fault = {}
Meant == \A i \in 1..Len(out) : h.docs[i].own => \E d \in Texts : h.docs[i].key = ParseKey(d, 0) /\ out[i] = Meaning(d)
Drawn == \A k \in 1..Len(h.memo) : h.memo[k][1][1] = "draw" => \E d \in Texts : h.memo[k][1][2] = ParseKey(d, 0) /\ h.memo[k][2] = Picture(Meaning(d))
\* an owned document never changes except by its owner
Frozen == [][\A i \in 1..Len(out) : out'[i] # out[i] => h.docs[i].own /\ ~h'.docs[i].own]_vars
=============================================================================
