----------------------------- MODULE RangeAlgebra -----------------------------
(***************************************************************************)
(* What the range proof proves (C18): the algebra behind its equations.    *)
(*                                                                         *)
(* The prover commits to values v, to "bits" aL, aR (in A, with a          *)
(* component beta along the value base) and is then asked, at y and z, to  *)
(* show that a polynomial in them is zero:                                 *)
(*    sum y^i aL_i aR_i                  each aL_i or aR_i is 0            *)
(*  + z sum y^i (aL_i - aR_i - 1)        and aR_i = aL_i - 1: bits         *)
(*  + sum z^(2+j) (sum 2^i aL_ij - v_j)  that make up the values           *)
(*  - beta                               (which w keeps apart)             *)
(* A verifier with proper challenges demands that every coefficient        *)
(* vanishes. One whose challenges are constant or related, or whose powers *)
(* repeat, only demands it of sums of coefficients.                        *)
(*                                                                         *)
(* Witnesses are integers at the low Bits positions of each value, so that *)
(* a solution here is a solution modulo the group order; a value below 0   *)
(* is out of range there. The other positions are those of zero bits.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt

CONSTANTS M, Bits, MaxE, MaxV, Betas, MaxBeta, Weaks,
          Tilts       \* see below

(* The two equations of the verifier are added with a random factor. If the prover could predict it, it might put a  *)
(* multiple d of the first vector generator into the first commitment and make up for it in the vector l: d is added *)
(* to aL_0 with the weight z^2 (z^2 / c if the factor is c), which gives d (z^2 aR_0 + z^3 + z^4). With Tilts the    *)
(* bits are honest.                                                                                                  *)

VARIABLES w, weak
I == (0 - MaxE)..MaxE
J == 1..M
B == 1..Bits
Val == (0 - MaxV)..MaxV
Pow(b) == CASE b = 1 -> 1 [] b = 2 -> 2 [] b = 3 -> 4
Idx(j, b) == 64 * (j - 1) + (b - 1)          \* the exponent of y
(* the monomials y^i z^e with their coefficients *)
Bit(j, b) == [y |-> Idx(j, b), z |-> 0, c |-> w.al[j][b] * w.ar[j][b]]
Com(j, b) == [y |-> Idx(j, b), z |-> 1, c |-> w.al[j][b] - w.ar[j][b] - 1]
Sum(S, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)
Tot(j) == [y |-> 0, z |-> 1 + j, c |-> Sum(B, LAMBDA b : Pow(b) * w.al[j][b]) - w.v[j]]
Tilt(e) == [y |-> 0, z |-> IF weak = "cz" THEN e - 1 ELSE e, c |-> IF e = 2 THEN w.d * w.ar[1][1] ELSE w.d]
Rest == [y |-> 0, z |-> 0, c |-> 0 - w.beta]
(* the terms, named so that equal ones count twice *)
Terms == {<<"bit", j, b>> : j \in J, b \in B} \cup {<<"com", j, b>> : j \in J, b \in B} \cup {<<"tot", j, 0>> : j \in J} \cup {<<"rest", 0, 0>>} \cup {<<"tilt", e, 0>> : e \in 2..4}
Term(t) == CASE t[1] = "bit" -> Bit(t[2], t[3]) [] t[1] = "com" -> Com(t[2], t[3]) [] t[1] = "tot" -> Tot(t[2]) [] t[1] = "tilt" -> Tilt(t[2]) [] OTHER -> Rest
(* which monomials a verifier can tell apart *)
Class(k, t) == LET x == Term(t) IN
  CASE k = "y1" -> <<0, x.z>>
    [] k = "z1" -> <<x.y, 0>>
    [] k \in {"yz", "zy"} -> <<x.y + x.z, 0>>
    [] k = "yrep" -> <<x.y % 64, x.z>>
    [] k = "zflat" -> <<x.y, IF x.z > 2 THEN 2 ELSE x.z>>
    [] OTHER -> <<x.y, x.z>>
Predictable == {"c1", "cz"}
Accept(k) == /\ k # "w1" => w.beta = 0
             /\ k \notin Predictable => w.d = 0
             /\ \A c \in {Class(k, t) : t \in Terms} : Sum({t \in Terms : Class(k, t) = c}, LAMBDA t : Term(t).c) = 0

InRange == \A j \in J : w.v[j] >= 0 /\ w.v[j] < 2 * Pow(Bits)
Honest == /\ w.beta = 0 /\ w.d = 0
          /\ \A j \in J : (\A b \in B : w.al[j][b] \in {0, 1} /\ w.ar[j][b] = w.al[j][b] - 1) /\ w.v[j] = Sum(B, LAMBDA b : Pow(b) * w.al[j][b])

Vecs == [J -> [B -> I]]
Init == /\ weak \in Weaks
        /\ IF Tilts
           THEN \E al \in [J -> [B -> {0, 1}]], v \in [J -> Val], d \in {0 - 1, 0, 1} :
                  w = [al |-> al, ar |-> [j \in J |-> [b \in B |-> al[j][b] - 1]], v |-> v, beta |-> 0, d |-> d]
           ELSE \E al \in Vecs, ar \in Vecs, v \in [J -> Val], be \in {b - MaxBeta : b \in Betas} :
                  /\ (weak # "w1" => be = 0)
                  /\ w = [al |-> al, ar |-> ar, v |-> v, beta |-> be, d |-> 0]
Next == FALSE /\ UNCHANGED <<w, weak>>
Spec == Init /\ [][Next]_<<w, weak>>

Sound == weak = "none" /\ Accept("none") => InRange /\ Honest
Complete == Honest => Accept(weak)
Cheat == \E j \in J : w.v[j] < 0
(* forgeries for the weak verifiers, and near misses for the proper one *)
Out(ok, tag) == [m |-> M, weak |-> IF weak = "none" THEN "" ELSE weak, wit |-> w, ok |-> ok, tag |-> tag]
Emit == /\ weak # "none" /\ Accept(weak) /\ Cheat => PrintT("@@" \o ToJson(Out(FALSE, "forged")))
        /\ weak = "none" /\ Honest => PrintT("@@" \o ToJson(Out(TRUE, "interop")))
        /\ weak = "none" /\ ~Accept("none") /\ Cheat /\ Cardinality({t \in Terms : Term(t).c # 0}) = 1 => PrintT("@@" \o ToJson(Out(FALSE, "forged")))
=============================================================================
