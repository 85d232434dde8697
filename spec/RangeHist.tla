------------------------------ MODULE RangeHist -------------------------------
(***************************************************************************)
(* Histories of proving and verifying ranges (C19). The store holds proofs *)
(* of lists of different lengths, good and bad ones; whether a call        *)
(* succeeds is a function of its arguments, whatever was done before.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Lens, Bad, MaxP, Depth

VARIABLES ps, log
vars == <<ps, log>>
Init == ps = <<>> /\ log = <<>>
Provable(n, k) == n >= 1 /\ n <= 16 /\ k = "in"
Rec(o, n, k, i, d, ok) == [o |-> o, n |-> n, k |-> k, i |-> i, d |-> d, ok |-> ok]
Prove(n, k, d) == /\ Len(ps) < MaxP
                  /\ ps' = Append(ps, [n |-> n, good |-> Provable(n, k)])
                  /\ log' = Append(log, Rec("prove", n, k, 0, d, Provable(n, k)))
Alter(o, i) == /\ Len(ps) < MaxP
               /\ ps' = Append(ps, [n |-> ps[i].n, good |-> FALSE])
               /\ log' = Append(log, Rec(o, 0, "", i, FALSE, TRUE))
Verify(i) == ps' = ps /\ log' = Append(log, Rec("verify", 0, "", i, FALSE, ps[i].good))
Next == Len(log) < Depth /\ (\/ \E n \in Lens, k \in {"in", "out"}, d \in BOOLEAN : Prove(n, k, d)
                             \/ \E n \in Bad : Prove(n, "in", FALSE)
                             \/ \E i \in DOMAIN ps : Verify(i) \/ Alter("tamper", i) \/ Alter("shorten", i))
Spec == Init /\ [][Next]_vars
Kinds == {"prove", "verify", "verify2", "verify3", "bad", "tamper", "shorten", "out"}
NextRand == /\ Len(log) < Depth
            /\ \E k \in {RandomElement(Kinds)} : \E n \in {RandomElement(Lens)} : \E b \in {RandomElement(Bad)} : \E d \in {RandomElement(BOOLEAN)} :
               IF ps = <<>> \/ (k = "prove" /\ Len(ps) < MaxP) THEN Prove(n, "in", d)
               ELSE \E i \in {RandomElement(DOMAIN ps)} :
                    IF k \in {"verify", "verify2", "verify3"} \/ Len(ps) >= MaxP THEN Verify(i)
                    ELSE CASE k = "bad" -> Prove(b, "in", d)
                           [] k = "out" -> Prove(n, "out", FALSE)
                           [] OTHER -> Alter(k, i)
SpecRand == Init /\ [][NextRand]_vars
\* a proof stays as good as it was
Kept == [][\A i \in DOMAIN ps : ps'[i] = ps[i]]_vars
\* verifying the same proof always gives the same answer
Same == \A i, j \in DOMAIN log : log[i].o = "verify" /\ log[j].o = "verify" /\ log[i].i = log[j].i => log[i].ok = log[j].ok
View == ps
Emit == Len(log) = Depth => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
