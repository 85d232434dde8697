----------------------------- MODULE MlsagBuild -----------------------------
(***************************************************************************)
(* Dual-key provers, the callers' key sets and buffers, and the signatures *)
(* they issue, as independent values (C09, C13).                           *)
(*                                                                         *)
(* A key is a term: a base point and the points subtracted from it so far. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NPr, NKS, NB, NS, NM, NPt, MaxDecoys, MaxSigs, Depth, Kinds, InitKind

VARIABLES pr, ks, buf, sigs, log
vars == <<pr, ks, buf, sigs, log>>

Prs == 1..NPr
KSs == 1..NKS
\* the base points: decoy keys "d1".., public keys of the secrets "s1".., the identity
Base == {"d" \o ToString(i) : i \in 1..NB} \cup {"s" \o ToString(i) : i \in 1..NS} \cup {"id"}
Secs == {"s" \o ToString(i) : i \in 1..NS} \cup {"0"}
Msgs == {"m" \o ToString(i) : i \in 1..NM}
Pts == {"p" \o ToString(i) : i \in 1..NPt}
Key(b) == [b |-> b, sub |-> <<>>]
NoProver == [ds |-> <<>>, s |-> <<"0", "0">>, m |-> ""]

Init == /\ pr = [p \in Prs |-> IF InitKind = "rich" /\ p = 1 THEN [ds |-> <<<<Key("d1"), Key("d2")>>>>, s |-> <<"s1", "s2">>, m |-> "m1"] ELSE NoProver]
        /\ ks = [k \in KSs |-> IF InitKind = "rich" /\ k = 1 THEN <<Key("d1"), Key("d2")>> ELSE <<>>]
        /\ buf = "m1"
        /\ sigs = <<>>
        /\ log = <<>>

Provable(q) == q.s[1] # "0" /\ q.s[2] # "0" /\ \A i \in DOMAIN q.ds : Len(q.ds[i]) = 2
Signer(q) == <<Key(q.s[1]), Key(q.s[2])>>
Issue(q) == [ring |-> Append(q.ds, Signer(q)), m |-> q.m, im |-> q.s[1], who |-> Len(q.ds) + 1, ok |-> TRUE]
CanSub(q) == \A i \in DOMAIN q.ds : Len(q.ds[i]) >= 2
SubAll(ds, pt) == [i \in DOMAIN ds |-> [ds[i] EXCEPT ![2].sub = Append(ds[i][2].sub, pt)]]

Out(x) == [pr |-> pr', ks |-> ks', sigs |-> sigs', x |-> x]
Did(x) == log' = Append(log, x)

KsAdd(k, b) == /\ Len(ks[k]) < 3 /\ ks' = [ks EXCEPT ![k] = Append(@, Key(b))]
               /\ UNCHANGED <<pr, buf, sigs>> /\ Did([op |-> "ksadd", k |-> k, b |-> b])
KsNew(k, a, b) == /\ ks' = [ks EXCEPT ![k] = <<Key(a), Key(b)>>]
                  /\ UNCHANGED <<pr, buf, sigs>> /\ Did([op |-> "ksnew", k |-> k, a |-> a, b |-> b])
KsCopy(k, l) == /\ k # l /\ ks' = [ks EXCEPT ![k] = ks[l]]
                /\ UNCHANGED <<pr, buf, sigs>> /\ Did([op |-> "kscopy", k |-> k, l |-> l])
Decoy(p, k) == /\ Len(pr[p].ds) < MaxDecoys
               /\ pr' = [pr EXCEPT ![p].ds = Append(@, ks[k])]
               /\ UNCHANGED <<ks, buf, sigs>> /\ Did([op |-> "decoy", p |-> p, k |-> k, n |-> Len(pr'[p].ds)])
Decoys(p, ls) == /\ Len(pr[p].ds) + Len(ls) <= MaxDecoys
                 /\ pr' = [pr EXCEPT ![p].ds = @ \o [i \in DOMAIN ls |-> ks[ls[i]]]]
                 /\ UNCHANGED <<ks, buf, sigs>> /\ Did([op |-> "decoys", p |-> p, ls |-> ls, n |-> Len(pr'[p].ds)])
\* a member of an issued signature, as it stands in it, becomes a decoy
Redecoy(p, g, j) == /\ Len(pr[p].ds) < MaxDecoys /\ sigs[g].ok
                    /\ pr' = [pr EXCEPT ![p].ds = Append(@, sigs[g].ring[j])]
                    /\ UNCHANGED <<ks, buf, sigs>> /\ Did([op |-> "redecoy", p |-> p, g |-> g, r |-> sigs[g].ring[j], n |-> Len(pr'[p].ds)])
Sub(p, pt) == /\ CanSub(pr[p])
              /\ pr' = [pr EXCEPT ![p].ds = SubAll(@, pt)]
              /\ UNCHANGED <<ks, buf, sigs>> /\ Did([op |-> "sub", p |-> p, pt |-> pt])
SetSec(p, i, s) == /\ pr' = [pr EXCEPT ![p].s[i] = s]
                   /\ UNCHANGED <<ks, buf, sigs>> /\ Did([op |-> IF i = 1 THEN "setprim" ELSE "setcomm", p |-> p, s |-> s])
\* the message is handed over in the caller's buffer ...
SetMsg(p) == /\ pr' = [pr EXCEPT ![p].m = buf]
             /\ UNCHANGED <<ks, buf, sigs>> /\ Did([op |-> "setmsg", p |-> p])
\* ... which the caller reuses
Fill(m) == /\ buf' = m /\ UNCHANGED <<pr, ks, sigs>> /\ Did([op |-> "fill", m |-> m])
Prove(p) == /\ Len(sigs) < MaxSigs
            /\ sigs' = IF Provable(pr[p]) THEN Append(sigs, Issue(pr[p])) ELSE sigs
            /\ UNCHANGED <<pr, ks, buf>> /\ Did([op |-> "prove", p |-> p, ok |-> Provable(pr[p])])
\* the owner of a signature changes it, which concerns nobody else
Spoil(g, f) == /\ sigs[g].ok /\ sigs' = [sigs EXCEPT ![g].ok = FALSE]
               /\ UNCHANGED <<pr, ks, buf>> /\ Did([op |-> "spoil", g |-> g, f |-> f])
\* signature g with the key image of h
Check(g, h) == /\ UNCHANGED <<pr, ks, buf, sigs>>
               /\ Did([op |-> "check", g |-> g, h |-> h, ok |-> sigs[g].ok /\ sigs[g].im = sigs[h].im])
Fresh(p) == /\ pr' = [pr EXCEPT ![p] = NoProver] /\ UNCHANGED <<ks, buf, sigs>> /\ Did([op |-> "newprover", p |-> p])

R(S) == RandomElement(S)
Skip == UNCHANGED vars
Lists == {<<k>> : k \in KSs} \cup {<<k, l>> : k \in KSs, l \in KSs} \cup {<<k, l, h>> : k \in KSs, l \in KSs, h \in KSs} \cup {<<>>}

Act(k) ==
  CASE k = "ksadd"  -> \E a \in KSs, b \in Base : KsAdd(a, b)
    [] k = "ksnew"  -> \E a \in KSs, b \in Base, c \in Base : KsNew(a, b, c)
    [] k = "kscopy" -> \E a \in KSs, b \in KSs : KsCopy(a, b)
    [] k = "decoy"  -> \E p \in Prs, a \in KSs : Decoy(p, a)
    [] k = "decoys" -> \E p \in Prs, l \in Lists : Decoys(p, l)
    [] k = "redecoy" -> \E p \in Prs, g \in DOMAIN sigs : \E j \in DOMAIN sigs[g].ring : Redecoy(p, g, j)
    [] k = "sub"    -> \E p \in Prs, t \in Pts : Sub(p, t)
    [] k = "setsec" -> \E p \in Prs, i \in 1..2, s \in Secs : SetSec(p, i, s)
    [] k = "setmsg" -> \E p \in Prs : SetMsg(p)
    [] k = "fill"   -> \E m \in Msgs : Fill(m)
    [] k = "prove"  -> \E p \in Prs : Prove(p)
    [] k = "spoil"  -> \E g \in DOMAIN sigs, f \in {"msg", "keys", "addkey"} : Spoil(g, f)
    [] k = "check"  -> \E g \in DOMAIN sigs, h \in DOMAIN sigs : Check(g, h)
    [] k = "newprover" -> \E p \in Prs : Fresh(p)
Next == Len(log) < Depth /\ \E k \in Kinds : Act(k)
Spec == Init /\ [][Next]_vars

\* one random successor per state
RAct(k, p, a, b, c, d) ==
  CASE k = "ksadd"  -> IF Len(ks[a]) < 3 THEN KsAdd(a, b) ELSE Skip
    [] k = "ksnew"  -> KsNew(a, b, c)
    [] k = "kscopy" -> IF a # d THEN KsCopy(a, d) ELSE Skip
    [] k = "decoy"  -> IF Len(pr[p].ds) < MaxDecoys /\ (Len(ks[a]) = 2 \/ R(1..6) = 1) THEN Decoy(p, a) ELSE Skip
    [] k = "decoys" -> \E l \in {R(Lists)} : IF Len(pr[p].ds) + Len(l) <= MaxDecoys /\ ((\A i \in DOMAIN l : Len(ks[l[i]]) = 2) \/ R(1..6) = 1) THEN Decoys(p, l) ELSE Skip
    [] k = "redecoy" -> IF sigs = <<>> THEN Skip ELSE \E g \in {R(DOMAIN sigs)} : \E j \in {R(DOMAIN sigs[g].ring)} : IF Len(pr[p].ds) < MaxDecoys /\ sigs[g].ok THEN Redecoy(p, g, j) ELSE Skip
    [] k = "sub"    -> \E t \in {R(Pts)} : IF CanSub(pr[p]) THEN Sub(p, t) ELSE Skip
    [] k = "setsec" -> \E i \in {R(1..2)} : \E s \in {IF R(1..8) = 1 THEN "0" ELSE R(Secs \ {"0"})} : SetSec(p, i, s)
    [] k = "setmsg" -> SetMsg(p)
    [] k = "fill"   -> \E m \in {R(Msgs)} : Fill(m)
    [] k = "prove"  -> IF Len(sigs) < MaxSigs THEN Prove(p) ELSE Skip
    [] k = "spoil"  -> IF sigs = <<>> THEN Skip ELSE \E g \in {R(DOMAIN sigs)} : \E f \in {R({"msg", "keys", "addkey"})} : IF sigs[g].ok THEN Spoil(g, f) ELSE Skip
    [] k = "check"  -> IF sigs = <<>> THEN Skip ELSE \E g \in {R(DOMAIN sigs)} : \E h \in {R(DOMAIN sigs)} : Check(g, IF R(1..2) = 1 THEN g ELSE h)
    [] k = "newprover" -> IF R(1..4) = 1 THEN Fresh(p) ELSE Skip
NextRand == /\ Len(log) < Depth
            /\ \E k \in {R(Kinds)} : \E p \in {R(Prs)} : \E a \in {R(KSs)} : \E b \in {R(Base)} : \E c \in {R(Base)} : \E d \in {R(KSs)} : RAct(k, p, a, b, c, d)
SpecRand == Init /\ [][NextRand]_vars

---------------------------------------------------------------------------
\* issued signatures stay as they are, but for their owner
Frame == [][/\ \A g \in DOMAIN sigs : sigs'[g] = sigs[g] \/ (sigs[g].ok /\ sigs'[g] = [sigs[g] EXCEPT !.ok = FALSE] /\ log'[Len(log')].op = "spoil")
            /\ \A k \in KSs : ks'[k] # ks[k] => log'[Len(log')].op \in {"ksadd", "ksnew", "kscopy"} /\ log'[Len(log')].k = k
            /\ \A p \in Prs : pr'[p] # pr[p] => log'[Len(log')].op \notin {"prove", "check", "spoil", "fill"} /\ log'[Len(log')].p = p]_vars
\* every signature covers the members its signer wanted, itself among them
Covers == \A g \in DOMAIN sigs : LET q == sigs[g] IN q.ring[q.who][1] = Key(q.im) /\ \A i \in DOMAIN q.ring : Len(q.ring[i]) = 2
Zero == \A g \in DOMAIN sigs : sigs[g].im # "0"
View == <<pr, ks, buf, sigs, Len(log)>>
EmitLast == Len(log) = Depth => PrintT("@@" \o ToJson([init |-> InitKind, log |-> log, pr |-> pr, ks |-> ks, sigs |-> sigs]))
=============================================================================
