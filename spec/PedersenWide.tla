---------------------------- MODULE PedersenWide -----------------------------
(***************************************************************************)
(* Commitments to many vectors (C22): each vector has generators of its    *)
(* own. The seed of vector i is extended by the bytes of i (none for 0).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns
VARIABLE c
RECURSIVE Suffix(_)
Suffix(i) == IF i = 0 THEN <<>> ELSE <<i % 256>> \o Suffix(i \div 256)
Edge == {0, 1, 2, 15, 16, 127, 128, 254, 255, 256, 257, 258, 511, 512, 513, 514}
Init == \E n \in Ns : \E i \in {x \in Edge \cup {n - 1} : x < n} : \E j \in {x \in Edge \cup {n - 1} : x < n /\ x > i} : c = [n |-> n, i |-> i, j |-> j]
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Distinct == Suffix(c.i) # Suffix(c.j)
Emit == PrintT("@@" \o ToJson(c))
=============================================================================
