------------------------------ MODULE BLSForge ------------------------------
(***************************************************************************)
(* The algebraic adversary against BLS multisignatures (C03).              *)
(*                                                                         *)
(* The adversary knows the honest public key pk_h, owns one secret x_a and *)
(* has honest signatures on other messages. It publishes rogue keys        *)
(*     P = c * pk_h + d * pk_a                                             *)
(* and presents a signature it can compute. Values are formal sums of      *)
(* monomials [w, x, m] standing for  H1(w) * x * H0(m)  with integer       *)
(* coefficients; w ranges over keys (c, d) or "one" (no weight).           *)
(* `Weights` says how keys are weighted in an aggregated key:              *)
(*   "perkey"  H1 of each key is an independent unknown (the design)       *)
(*   "const"   the same weight for all keys                                *)
(*   "none"    no weights                                                  *)
(*   "xonly"   H1 cannot tell a key from its negation                      *)
(*   "few"     H1 takes few values: keys of the same weight can be found   *)
(* The last four are broken designs; TLC finds the forgeries there, which *)
(* shows that the strategies below are the attacks that matter.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxC, MaxRogue, Weights

VARIABLE c

Coef  == (0 - MaxC)..MaxC
Keys  == {<<x, y>> : x \in Coef, y \in -1..1} \ {<<0, 0>>}
Hon   == <<1, 0>>
Adv   == <<0, 1>>
One   == <<99, 99>>                      \* the weight "one"
Neg(P) == <<0 - P[1], 0 - P[2]>>

\* how the scheme weighs a key
Canon(P) == IF P[1] < 0 \/ (P[1] = 0 /\ P[2] < 0) THEN Neg(P) ELSE P
W(P) == CASE Weights = "perkey" -> P
          [] Weights = "const"  -> Hon
          [] Weights = "none"   -> One
          [] Weights = "xonly"  -> Canon(P)
          [] Weights = "few"    -> <<98, (P[1] * P[1] + 2 * P[2] + P[1]) % 3>>

\* formal sums: functions from monomials to integers, given as sequences of [co, w, x, m]
Mono(co, w, x, m) == [co |-> co, w |-> w, x |-> x, m |-> m]
RECURSIVE CoefOf(_, _)
CoefOf(s, t) == IF s = <<>> THEN 0
                ELSE (IF Head(s).w = t.w /\ Head(s).x = t.x /\ Head(s).m = t.m THEN Head(s).co ELSE 0) + CoefOf(Tail(s), t)
FEq(s, t) == /\ \A i \in DOMAIN s : CoefOf(s, s[i]) = CoefOf(t, s[i])
             /\ \A i \in DOMAIN t : CoefOf(s, t[i]) = CoefOf(t, t[i])
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

RECURSIVE ApkTerms(_, _)
ApkTerms(ks, m) == IF ks = <<>> THEN <<>>
                   ELSE <<Mono(Head(ks)[1], W(Head(ks)), "h", m), Mono(Head(ks)[2], W(Head(ks)), "a", m)>> \o ApkTerms(Tail(ks), m)

\* what the adversary presents. Message 1 is the target, 2 and 3 have been signed by the honest signer.
Strategies == {"own", "const", "none", "swap", "identity", "replay", "replayu", "sumreplay", "diffreplay", "ownreplay"}
RECURSIVE Own(_)
Own(ks) == IF ks = <<>> THEN <<>> ELSE <<Mono(Head(ks)[2], W(Head(ks)), "a", 1)>> \o Own(Tail(ks))
SumD(ks) == Sum([i \in DOMAIN ks |-> ks[i][2]])
Sig(st, ks) ==
  CASE st = "own"        -> Own(ks)                                                  \* its share, with the proper weights
    [] st = "const"      -> <<Mono(SumD(ks), W(Hon), "a", 1)>>                       \* as if all weights were H1(pk_h)
    [] st = "none"       -> <<Mono(SumD(ks), One, "a", 1)>>                          \* as if there were no weights
    [] st = "swap"       -> <<Mono(SumD(ks), W(Adv), "a", 1)>>                       \* as if all weights were H1(pk_a)
    [] st = "identity"   -> <<>>
    [] st = "replay"     -> <<Mono(1, W(Hon), "h", 2)>> \o Own(ks)
    [] st = "replayu"    -> <<Mono(1, One, "h", 2)>> \o Own(ks)
    [] st = "sumreplay"  -> <<Mono(1, W(Hon), "h", 2), Mono(1, W(Hon), "h", 3)>> \o Own(ks)
    [] st = "diffreplay" -> <<Mono(2, W(Hon), "h", 2), Mono(-1, W(Hon), "h", 3)>> \o Own(ks)
    [] st = "ownreplay"  -> <<Mono(1, W(Hon), "h", 2)>>

Accepts(ks, sig) == FEq(ApkTerms(ks, 1), sig)

\* the key lists: the honest key at each position among the rogue ones
Seqs(S, n) == [1..n -> S]
Insert(s, i, x) == [j \in 1..(Len(s) + 1) |-> IF j < i THEN s[j] ELSE IF j = i THEN x ELSE s[j - 1]]
Lists == UNION {{Insert(s, i, Hon) : s \in Seqs(Keys, n), i \in 1..(n + 1)} : n \in 0..MaxRogue}

\* unweighted batches: a key that cancels the honest one is harmless only because messages have to be distinct
Dups == {[n |-> n, i |-> i, j |-> j] : n \in 2..4, i \in 1..4, j \in 1..4}
DupCases == {d \in Dups : d.i < d.j /\ d.j <= d.n}

Case(t, ks, st) == [t |-> t, ks |-> ks, st |-> st, ok |-> Accepts(ks, Sig(st, ks))]
Init == c \in {Case("multi", ks, st) : ks \in Lists, st \in Strategies}
              \cup {[t |-> "dup", n |-> d.n, i |-> d.i, j |-> d.j, v |-> v, ok |-> FALSE] : d \in DupCases, v \in {"plain", "comp"}}
              \* weights so few that a rogue key of the honest key's weight can be searched for
              \cup {[t |-> "grind", k |-> k, ok |-> FALSE] : k \in 0..7} \cup {[t |-> "small", k |-> k, ok |-> FALSE] : k \in 0..1}
              \cup {[t |-> "rescale", fam |-> f, ok |-> FALSE] : f \in 0..3}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

NoForgery == ~c.ok
Emit == PrintT("@@" \o ToJson(c))
=============================================================================
