------------------------------ MODULE RingCases ------------------------------
(***************************************************************************)
(* Honest ring signatures (C09, C15) and their key images (C11).           *)
(*                                                                         *)
(* A case is a ring of decoys, at most two of which are special, a signer, *)
(* its secrets and a message. The prover yields a signature exactly for    *)
(* well-formed cases; it covers the decoys and the signer, in some order.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Scheme, Part, MaxD, Sizes, Far

VARIABLES x
Good == {"dup", "signer", "ident", "negsig", "base", "swapped", "half"}
Wrong == IF Scheme = "mlsag" THEN {"one", "three", "none"} ELSE {}
Special == Good \cup Wrong
Secs == {"rand", "one", "minus1", "small", "top"} \cup IF Scheme = "mlsag" THEN {"zero"} ELSE {}
\* secrets: of the primary key and (multi-key scheme) of the second
SecPairs == IF Scheme = "mlsag" THEN Secs \X Secs ELSE {<<s, "rand">> : s \in Secs}
Plain(d) == [i \in 1..d |-> "rand"]

Case(ds, ss, m) == [scheme |-> Scheme, decoys |-> ds, secrets |-> ss, msg |-> m]
WF(c) == /\ \A i \in DOMAIN c.decoys : c.decoys[i] \notin Wrong
         /\ c.secrets[1] # "zero" /\ c.secrets[2] # "zero"
Cases ==
       {Case(Plain(d), <<"rand", "rand">>, d % 12) : d \in 0..MaxD \cup Far}
  \cup {Case(Plain(d), <<"rand", "rand">>, m) : d \in {0, 1, 2}, m \in 0..11}
  \cup {Case(Plain(d), ss, 0) : d \in {0, 1, 2}, ss \in SecPairs}
  \cup UNION {{Case([Plain(d) EXCEPT ![i] = k], <<"rand", "rand">>, 1) : i \in 1..d, k \in Special} : d \in Sizes}
  \cup UNION {{Case([Plain(d) EXCEPT ![i] = k, ![j] = l], <<"rand", "rand">>, 2) : i \in 1..d, j \in 1..d, k \in Special, l \in Special} : d \in Sizes \ {1, 7, 20}}
  \cup {Case([i \in 1..d |-> k], <<"rand", "rand">>, 3) : d \in Sizes, k \in Special}
  \cup {Case([Plain(d) EXCEPT ![1] = k], ss, 4) : d \in {1, 2}, k \in Special, ss \in SecPairs}

(* Linking: two signatures, each by key k over ring r on message m. *)
Sigs == {[k |-> k, r |-> r, m |-> m, s |-> s] : k \in 1..3, r \in 0..3, m \in 1..2, s \in {"mlsag", "blsag"}}
Links == {[a |-> a, b |-> b] : a \in Sigs, b \in Sigs}
Linked(l) == l.a.k = l.b.k

Init == IF Part = "cases" THEN x \in Cases ELSE x \in Links
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
Emit == PrintT("@@" \o ToJson(IF Part = "cases" THEN x @@ [ok |-> WF(x)] ELSE x @@ [linked |-> Linked(x)]))
=============================================================================
