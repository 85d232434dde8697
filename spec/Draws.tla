------------------------------- MODULE Draws ---------------------------------
(***************************************************************************)
(* Draws of blinding factors (C22) and of random bytes (C24): a commitment *)
(* hides its value only if its factor was used in no other one, however    *)
(* many were made before.                                                  *)
(*                                                                         *)
(* Design: the source they come from. Period 0 = a fresh coin each time,   *)
(* Period p > 0 = a stream that starts over after p draws (a counter that  *)
(* wraps, a block used up), Kinds may share one source.                    *)
(* NoRepeat holds for the first and is refuted for the others as soon as   *)
(* the draws, of all kinds together, outnumber the period: hence the       *)
(* cases, which go past the periods of counters of one and two bytes.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Part, Period, N, Kinds, Counts
VARIABLES at, drawn, last, c
vars == <<at, drawn, last, c>>
None == [what |-> "none", n |-> 0]
Init == /\ at = 0
        /\ drawn = {}
        /\ last = [fresh |-> TRUE, kind |-> "none"]
        /\ IF Part = "cases" THEN \E k \in Kinds : \E n \in Counts : c = [what |-> k, n |-> n] ELSE c = None
\* the factor number at of the source
Factor(i) == IF Period = 0 THEN i ELSE i % Period
Draw(k) == /\ Part = "design"
           /\ at < N
           /\ at' = at + 1
           /\ last' = [fresh |-> Factor(at) \notin drawn, kind |-> k]
           /\ drawn' = drawn \cup {Factor(at)}
           /\ UNCHANGED c
Next == \E k \in Kinds : Draw(k)
Spec == Init /\ [][Next]_vars
NoRepeat == last.fresh
Counted == Part = "design" /\ Period = 0 => Cardinality(drawn) = at
Emit == Part = "cases" => PrintT("@@" \o ToJson(c))
=============================================================================
