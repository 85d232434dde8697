------------------------------ MODULE RangeCases ------------------------------
(***************************************************************************)
(* Honest range proofs (C17) and the prover on what can not be proven      *)
(* (C18): lists of values, each given by a name the harness turns into a   *)
(* scalar. "p<k>" is 2^k, "m<k>" is 2^k - 1, "r" a random one of 64 bits,  *)
(* "t" a random one just below 2^64.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Part, Pats, Lens, Step

VARIABLES x
N(s, k) == s \o ToString(k)
Good == {N("p", k) : k \in 0..63} \cup {N("m", k) : k \in 0..64} \cup {"r", "t"}
Bad == {"p64", "p65", "p127", "p128", "p192", "p251", "over1", "over2", "L1", "L2", "half", "wide", "neg64"}
Ok(vs) == Len(vs) >= 1 /\ Len(vs) <= 16 /\ \A i \in DOMAIN vs : vs[i] \in Good
NextPow(n) == CHOOSE m \in {1, 2, 4, 8, 16} : m >= n /\ \A k \in {1, 2, 4, 8, 16} : k >= n => k >= m
Fill(n, p) == [i \in 1..n |-> CASE p = "zero" -> "m0" [] p = "max" -> "m64" [] p = "rand" -> "r"
                               [] p = "alt" -> IF i % 2 = 0 THEN "m0" ELSE "m64"
                               [] p = "stair" -> N("p", (i * 4 - 1) % 64)
                               [] p = "lastmax" -> IF i = n THEN "m64" ELSE "m1"
                               [] p = "same" -> "m17"]
Case(vs, d, c) == [vals |-> vs, debug |-> d, spare |-> c]
Honest ==
       {Case(<<v>>, TRUE, 0) : v \in {N("p", k) : k \in {k \in 0..63 : k % Step = 0}} \cup {N("m", k) : k \in 0..64}}
  \cup {Case(<<v>>, FALSE, 3) : v \in Good}
  \cup {Case(Fill(n, p), d, IF p \in {"rand", "alt"} THEN 20 ELSE 0) : n \in Lens, p \in Pats, d \in {TRUE, FALSE}}
  \cup {Case([Fill(n, "zero") EXCEPT ![i] = v], FALSE, 1) : i \in 1..3, n \in {3}, v \in {"m64", "p63", "r"}}
Refused == {Case(Fill(n, p), d, 0) : n \in {0, 17, 18, 31, 32, 33, 64, 257}, p \in {"zero", "rand"}, d \in {TRUE, FALSE}}
OutOfRange ==
       {Case(<<b>>, d, 0) : b \in Bad, d \in {TRUE, FALSE}}
  \cup {Case([Fill(n, "rand") EXCEPT ![i] = b], FALSE, 0) : b \in Bad, n \in {2, 3}, i \in 1..2}
  \cup {Case(<<b, c>>, FALSE, 0) : b \in {"p64", "L1", "over1"}, c \in {"neg64", "p64"}}
  \cup {Case([Fill(n, "zero") EXCEPT ![n] = b], FALSE, 0) : b \in {"p64", "L1"}, n \in Lens}
Init == x \in (IF Part = "honest" THEN Honest \cup Refused ELSE OutOfRange)
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
Sane == x.vals # <<>> /\ Len(x.vals) <= 16 => LET m == NextPow(Len(x.vals)) IN m >= Len(x.vals) /\ m < 2 * Len(x.vals)
Emit == PrintT("@@" \o ToJson(x @@ [ok |-> Ok(x.vals), m |-> IF Ok(x.vals) THEN NextPow(Len(x.vals)) ELSE 0]))
=============================================================================
