---------------------------- MODULE PedersenLong -----------------------------
(***************************************************************************)
(* Commitments to long vectors (C22): k generators computed beforehand (in *)
(* one call, or `left' first), a vector of n elements and one of m (0:     *)
(* none). The commitment extends the chain of generators as far as needed. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Ms, Far   \* Far: lengths far away, in a few combinations only
VARIABLE c
Max2(a, b) == IF a > b THEN a ELSE b
Ks(n) == {0, 1, n, n + 5} \cup {x \in {n - 1, n \div 2, 255, 256, 257} : x >= 0}
Case(n, m, k, l) == c = [n |-> n, m |-> m, k |-> k, left |-> l, have |-> Max2(n, k)]
Init == (\E n \in Far : \E k \in {0, n \div 2, n + 1} : Case(n, 0, k, 0)) \/ \E n \in Ns : \E m \in Ms : \E k \in Ks(n) : \E l \in {0, 1, k \div 2} : Case(n, m, k, l)
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Enough == c.have >= c.n /\ c.have >= c.k
Emit == PrintT("@@" \o ToJson(c))
=============================================================================
