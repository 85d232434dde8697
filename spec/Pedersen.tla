------------------------------ MODULE Pedersen -------------------------------
(***************************************************************************)
(* Generators and Pedersen commitments (C22) as a store of objects.        *)
(*                                                                         *)
(* The k-th generator of a seed is a constant; an object only remembers    *)
(* how many it has computed. A commitment is a formal sum: value * base +  *)
(* blinder * blinding base, or one term per vector and position (vector i  *)
(* uses the generators of the seed extended by i). Blinders are all        *)
(* different.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NG, NP, NSeed, MaxGen, MaxVec, MaxLen, MaxCom, Depth

VARIABLES gs, ps, coms, log
vars == <<gs, ps, coms, log>>
Seeds == 1..NSeed
G == 1..NG
PP == 1..NP
Ints == {0, 1, 2, 3, -1, 9}       \* 9 stands for a random scalar
Init == gs = [g \in G |-> [seed |-> 1, n |-> 0]] /\ ps = [p \in PP |-> [seed |-> p, n |-> 0]] /\ coms = <<>> /\ log = <<>>

Max(a, b) == IF a > b THEN a ELSE b
Vec(l, x) == [i \in 1..l |-> IF (i + x) % 4 = 0 THEN 9 ELSE ((i * 7 + x) % 5) - 1]
\* which operations the store goes through
Shapes == UNION {[1..v -> 0..MaxLen] : v \in 0..MaxVec}
Do(x) ==
  /\ gs' = CASE x.o = "gnew" -> [gs EXCEPT ![x.g] = [seed |-> x.s, n |-> 0]]
             [] x.o = "compute" -> [gs EXCEPT ![x.g].n = @ + x.k]
             [] x.o = "clear" -> [gs EXCEPT ![x.g].n = 0]
             [] OTHER -> gs
  /\ ps' = CASE x.o = "pnew" -> [ps EXCEPT ![x.p] = [seed |-> x.s, n |-> 0]]
             [] x.o = "pcompute" -> [ps EXCEPT ![x.p].n = @ + x.k]
             [] x.o = "pclear" -> [ps EXCEPT ![x.p].n = 0]
             [] x.o = "vectors" -> [ps EXCEPT ![x.p].n = Max(@, IF x.sh = <<>> THEN 0 ELSE x.sh[1])]
             [] OTHER -> ps
  /\ coms' = CASE x.o = "scalar" -> Append(coms, [k |-> "s", vs |-> <<<<x.v>>>>, seed |-> 0])
               [] x.o = "vectors" -> Append(coms, [k |-> "v", vs |-> [i \in 1..Len(x.sh) |-> Vec(x.sh[i], x.x + i)], seed |-> ps[x.p].seed])
               [] OTHER -> coms
  /\ log' = Append(log, x @@ [n |-> CASE x.o \in {"gnew", "compute", "clear", "iterate"} -> gs'[x.g].n
                                      [] x.o \in {"pnew", "pcompute", "pclear", "vectors", "scalar"} -> ps'[x.p].n
                                      [] OTHER -> 0,
                              com |-> IF Len(coms') > Len(coms) THEN coms'[Len(coms')] ELSE [k |-> "none"]])
Ks(n) == {k \in 0..5 : n + k <= MaxGen}
Kinds == {"gnew", "compute", "clear", "iterate", "pnew", "pcompute", "pclear", "scalar", "vectors", "sum"}
Calls(o) ==
  CASE o = "gnew" -> {[o |-> o, g |-> g, s |-> s] : g \in G, s \in Seeds}
    [] o = "compute" -> UNION {{[o |-> o, g |-> g, k |-> k] : k \in Ks(gs[g].n)} : g \in G}
    [] o \in {"clear", "iterate"} -> {[o |-> o, g |-> g] : g \in G}
    [] o = "pnew" -> {[o |-> o, p |-> p, s |-> s] : p \in PP, s \in Seeds}
    [] o = "pcompute" -> UNION {{[o |-> o, p |-> p, k |-> k] : k \in Ks(ps[p].n)} : p \in PP}
    [] o = "pclear" -> {[o |-> o, p |-> p] : p \in PP}
    [] o = "scalar" -> IF Len(coms) < MaxCom THEN {[o |-> o, p |-> p, v |-> v] : p \in PP, v \in Ints} ELSE {}
    [] o = "vectors" -> IF Len(coms) < MaxCom THEN {[o |-> o, p |-> p, sh |-> sh, x |-> x] : p \in PP, sh \in Shapes, x \in 0..3} ELSE {}
    [] o = "sum" -> {[o |-> o, a |-> a, b |-> b, neg |-> ng] : a \in 1..Len(coms), b \in 1..Len(coms), ng \in BOOLEAN}
Next == Len(log) < Depth /\ \E o \in Kinds : \E x \in Calls(o) : Do(x)
Spec == Init /\ [][Next]_vars
NextRand == Len(log) < Depth /\ \E o \in {RandomElement(Kinds)} : LET C == Calls(o) IN
              IF C = {} THEN UNCHANGED vars ELSE \E x \in {RandomElement(C)} : Do(x)
SpecRand == Init /\ [][NextRand]_vars

\* issued commitments never change, an operation changes its own object only
Kept == [][\A i \in 1..Len(coms) : coms'[i] = coms[i]]_vars
Frame == [][LET l == log'[Len(log')] IN /\ \A g \in G : gs'[g] # gs[g] => l.o \in {"gnew", "compute", "clear"} /\ l.g = g
                                        /\ \A p \in PP : ps'[p] # ps[p] => l.o \in {"pnew", "pcompute", "pclear", "vectors"} /\ l.p = p]_vars
Bounded == \A g \in G : gs[g].n <= MaxGen
View == <<gs, ps, coms, Len(log)>>
Emit == Len(log) = Depth => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
