------------------------------- MODULE SvgHist -------------------------------
(* Histories of calls.  Parses read their input chunk by chunk, draws paint   *)
(* step by step, both in any interleaving, and callers may overwrite what     *)
(* they were given.  Results are opaque.  The meaning of an input is whatever *)
(* is observed for it first (a process that does nothing else is observed     *)
(* first), and has to be observed ever after:                                 *)
(*   parse   (text, mode)              -> document and error                  *)
(*   draw    (text, mode, how)         -> pixels                              *)
(*   content of a returned document    -> unchanged until its owner scribbles *)
(*   the defaults of the package       -> unchanged                           *)
EXTENDS Integers, Sequences, TLC

NoJob == [e |-> "idle"]
Empty == [jobs |-> <<>>, docs |-> <<>>, memo |-> <<>>, fault |-> {}]

HasKey(memo, k) == \E i \in 1..Len(memo) : memo[i][1] = k
ValueOf(memo, k) == LET i == CHOOSE i \in 1..Len(memo) : memo[i][1] = k IN memo[i][2]
\* the value of k is v, as far as it is known
Learn(h, k, v, aspect) ==
  IF ~HasKey(h.memo, k) THEN [h EXCEPT !.memo = Append(@, <<k, v>>)]
  ELSE IF ValueOf(h.memo, k) = v THEN h
  ELSE [h EXCEPT !.fault = @ \cup {aspect}]

Job(h, s) == IF \E i \in 1..Len(h.jobs) : h.jobs[i].s = s
             THEN h.jobs[CHOOSE i \in 1..Len(h.jobs) : h.jobs[i].s = s] ELSE NoJob
Free(h, s) == Job(h, s) = NoJob
Without(jobs, s) == SelectSeq(jobs, LAMBDA j : j.s # s)

ParseKey(d, mode) == ToString(d) \o "/" \o ToString(mode)
\* the calls
Begin(h, s, d, mode) == [h EXCEPT !.jobs = Append(@, [e |-> "parse", s |-> s, key |-> ParseKey(d, mode)])]
End(h, s, res, doc) ==
  LET j == Job(h, s)
      g == Learn(h, <<"parse", j.key, "">>, res, "parse")
  IN [g EXCEPT !.jobs = Without(@, s), !.docs = Append(@, [key |-> j.key, is |-> doc, own |-> TRUE])]
DrawBegin(h, s, i, how) ==
  [h EXCEPT !.jobs = Append(@, [e |-> "draw", s |-> s, key |-> h.docs[i].key, how |-> how, of |-> i, good |-> h.docs[i].own])]
DrawEnd(h, s, res) ==
  LET j == Job(h, s)
      g == IF j.good THEN Learn(h, <<"draw", j.key, j.how>>, res, "draw") ELSE h
  IN [g EXCEPT !.jobs = Without(@, s)]
Scribble(h, i) == [h EXCEPT !.docs[i].own = FALSE]
Snap(h, i, res) == IF h.docs[i].own /\ h.docs[i].is # res THEN [h EXCEPT !.fault = @ \cup {"snap"}] ELSE h
Globals(h, res) == Learn(h, <<"globals", "", "">>, res, "globals")
=============================================================================
