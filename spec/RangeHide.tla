------------------------------ MODULE RangeHide ------------------------------
(***************************************************************************)
(* What a range proof tells (C27). Over a toy field F_Q, with values of    *)
(* one bit and the group taken as F_Q itself (an observer who computes     *)
(* discrete logarithms), everything published by a prover, the vectors l   *)
(* and r in full included, is a function of the values, the challenges and *)
(* the coins. For the honest prover that function is one to one from coins *)
(* to transcripts, with the same image whatever the values: for all        *)
(* challenges nothing published depends on the values. Every prover that   *)
(* saves coins is refuted; the harness looks for each of these savings in  *)
(* the proofs of the library, from what is published and the randomness    *)
(* the prover was seen to draw.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Part, Q, M, Prover, Xs, Ys, Lens, Pats, Reps

VARIABLES ch, case
vars == <<ch, case>>

F == 0..(Q - 1)
J == 1..M
Vals == [J -> {0, 1}]
\* generators: any that are not zero, and do not cancel by themselves
g == 1
h == 1
Gv(i) == 1
Hv(i) == 1

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE (b * Pow(b, e - 1)) % Q
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Md(k) == ((k % Q) + Q) % Q

Coins == [ga : [J -> F], al : F, rh : F, ta : F, tb : F, sl : [J -> F], sr : [J -> F]]

\* the coins a prover really uses
Use(k, v) ==
  CASE Prover = "honest"     -> k
    [] Prover = "gamma0"     -> [k EXCEPT !.ga = [j \in J |-> 0]]
    [] Prover = "gammasame"  -> [k EXCEPT !.ga = [j \in J |-> k.ga[1]]]
    [] Prover = "gammavalue" -> [k EXCEPT !.ga = [j \in J |-> v[j]]]
    [] Prover = "alpha0"     -> [k EXCEPT !.al = 0]
    [] Prover = "rho0"       -> [k EXCEPT !.rh = 0]
    [] Prover = "alpharho"   -> [k EXCEPT !.rh = k.al]
    [] Prover = "alphagamma" -> [k EXCEPT !.al = k.ga[1]]
    [] Prover = "rhogamma"   -> [k EXCEPT !.rh = k.ga[1]]
    [] Prover = "tau10"      -> [k EXCEPT !.ta = 0]
    [] Prover = "tau20"      -> [k EXCEPT !.tb = 0]
    [] Prover = "tausame"    -> [k EXCEPT !.tb = k.ta]
    [] Prover = "taualpha"   -> [k EXCEPT !.ta = k.al]
    [] Prover = "taurho"     -> [k EXCEPT !.tb = k.rh]
    [] Prover = "taugamma"   -> [k EXCEPT !.ta = k.ga[1]]
    [] Prover = "maskl0"     -> [k EXCEPT !.sl = [j \in J |-> 0]]
    [] Prover = "maskr0"     -> [k EXCEPT !.sr = [j \in J |-> 0]]
    [] Prover = "masksame"   -> [k EXCEPT !.sr = k.sl]      \* hides nevertheless: aL - aR is the same for every bit
    [] Prover = "maskneg"    -> [k EXCEPT !.sr = [j \in J |-> Md(-k.sl[j])]]
    [] Prover = "maskrep"    -> [k EXCEPT !.sl = [j \in J |-> k.sl[1]], !.sr = [j \in J |-> k.sr[1]]]
    [] Prover = "masktail"   -> [k EXCEPT !.sl[M] = 0, !.sr[M] = 0]

\* everything published, given the challenges c.x, c.y, c.z
Published(v, k0, c) ==
  LET k == Use(k0, v)
      al == [i \in J |-> v[i]]
      ar == [i \in J |-> Md(v[i] - 1)]
      l0 == [i \in J |-> Md(al[i] - c.z)]
      yp == [i \in J |-> Pow(c.y, i - 1)]
      zp == [i \in J |-> Pow(c.z, 1 + i)]
      r0 == [i \in J |-> Md(yp[i] * (ar[i] + c.z) + zp[i])]
      r1 == [i \in J |-> Md(yp[i] * k.sr[i])]
      t1 == Sum([i \in J |-> l0[i] * r1[i] + k.sl[i] * r0[i]], M)
      t2 == Sum([i \in J |-> k.sl[i] * r1[i]], M)
  IN <<[j \in J |-> Md(v[j] * g + k.ga[j] * h)],                                        \* V
       Md(k.al * h + Sum([i \in J |-> al[i] * Gv(i) + ar[i] * Hv(i)], M)),               \* A
       Md(k.rh * h + Sum([i \in J |-> k.sl[i] * Gv(i) + k.sr[i] * Hv(i)], M)),           \* S
       Md(t1 * g + k.ta * h), Md(t2 * g + k.tb * h),                                     \* T1, T2
       Md(k.ta * c.x + k.tb * c.x * c.x + Sum([j \in J |-> zp[j] * k.ga[j]], M)),        \* taux
       Md(k.al + k.rh * c.x),                                                           \* mu
       [i \in J |-> Md(l0[i] + k.sl[i] * c.x)], [i \in J |-> Md(r0[i] + r1[i] * c.x)]>>  \* l, r

Image(v) == {Published(v, k, ch) : k \in Coins}
Base == [j \in J |-> 0]
Hidden == Part = "model" => LET b == Image(Base) IN \A v \in Vals : Image(v) = b
\* no coin is saved: coins and transcripts correspond one to one
Spent == Part = "model" => Cardinality(Image(Base)) = Cardinality(Coins)
\* what verifies is published: the two equations of the verifier (a check of the model itself)
Checks == Part = "model" => \A v \in Vals : \A k \in Coins :
   LET p == Published(v, k, ch)
       c == ch
       t == Sum([i \in J |-> p[8][i] * p[9][i]], M)
       zp == [i \in J |-> Pow(c.z, 1 + i)]
       yp == [i \in J |-> Pow(c.y, i - 1)]
       dl == (c.z - c.z * c.z) * Sum(yp, M) - Sum([i \in J |-> zp[i] * c.z], M)
   IN Md(t * g + p[6] * h) = Md(Sum([j \in J |-> zp[j] * p[1][j]], M) + dl * g + c.x * p[4] + c.x * c.x * p[5])

Cases == {[kind |-> "hide", n |-> n, pat |-> p, reps |-> IF n > 3 THEN 2 ELSE Reps] : n \in Lens, p \in Pats} \cup {[kind |-> "stream", n |-> 1, pat |-> p, reps |-> 12 * Reps] : p \in Pats}
Init == IF Part = "model" THEN ch \in [x : Xs, y : Ys, z : Ys] /\ case = [kind |-> "none"]
        ELSE ch = [x |-> 1, y |-> 1, z |-> 1] /\ case \in Cases
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == case.kind # "none" => PrintT("@@" \o ToJson(case))
=============================================================================
