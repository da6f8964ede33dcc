-------------------------------- MODULE MCKit --------------------------------
(* Sequences of calls of the helpers on every gradient of the alphabet; every *)
(* maximal sequence is printed to be repeated with the real helpers.          *)
EXTENDS SvgKit, Json, IOUtils

Conf == ndJsonDeserialize(IOEnv.ALPHABET)[1]
Calls == Conf.calls
Grads == Conf.grads
VARIABLES gi, word, s
vars == <<gi, word, s>>
Code(w) == FoldLeft(LAMBDA a, i : a \o ToString(i) \o ",", "", w)
Init == gi \in 1..Len(Grads) /\ word = <<>> /\ s = Start0(Grads[gi])
Next == /\ Len(word) < Conf.max
        /\ \E i \in 1..Len(Calls) : /\ word' = Append(word, i) /\ s' = Call(s, Calls[i])
                                    /\ (Len(word') = Conf.max => PrintT("W|kit|" \o ToString(gi) \o "|" \o Code(word')))
        /\ UNCHANGED gi
Spec == Init /\ [][Next]_vars

G == Grads[gi]
\* only the bounds and the units of the gradient ever change, and its origin never does
OnlyBounds == s.keep = G /\ [s.g EXCEPT !.b = G.b, !.units = G.units] = G
\* the corners of the unit box go to the corners of the extent, relative to its corner
UnitBox == \A i \in 1..Len(Calls) :
  LET c == Calls[i] t == Call(s, c) m == t.res
  IN c.k = "extent" =>
       /\ t.g.units = s.g.units
       /\ (s.g.units = 1 => t.g = s.g /\ m = G.m)
       /\ (s.g.units = 0 /\ G.m = Id => /\ Apply(m, U, U) = <<t.g.b[3], t.g.b[4]>> /\ Apply(m, 0, 0) = <<0, 0>>
                                        /\ <<t.g.b[1] + t.g.b[3], t.g.b[2] + t.g.b[4]>> = <<c.p[3], c.p[4]>>)
       /\ Call(t, c) = t                                      \* the last extent alone counts
\* the path has what was added since it was cleared
LastClear(w) == IF \E i \in 1..Len(w) : Calls[w[i]].k = "clear"
                THEN CHOOSE i \in 1..Len(w) : Calls[w[i]].k = "clear" /\ \A j \in (i + 1)..Len(w) : Calls[w[j]].k # "clear" ELSE 0
Adds(c) == IF c.k \in DOMAIN Kinds \/ (c.k = "stop" /\ c.n = 1) THEN 1 ELSE 0
Built == LET w == SubSeq(word, LastClear(word) + 1, Len(word)) IN Len(s.path) = SumSeq([i \in 1..Len(w) |-> Adds(Calls[w[i]])])
=============================================================================
