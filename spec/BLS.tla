-------------------------------- MODULE BLS --------------------------------
(***************************************************************************)
(* The BLS multisignature library seen by its callers: a store of objects  *)
(* (public keys, aggregated keys, signatures, unsafe signatures) and the   *)
(* exported calls on them, one action per call.                            *)
(*                                                                         *)
(* Group elements are formal sums over independent generators, kept as     *)
(* bags (sequences read up to order):                                      *)
(*   public key      <<n_1 .. n_NK>>    the sum of n_k times pk_k          *)
(*   aggregated key  bag of public keys P        = sum of H1(P) * P        *)
(*   unsafe sig      bag of [k, m]               = sum of x_k * H0(m)      *)
(*   signature       bag of [w, k, m]            = sum of H1(w) x_k H0(m)  *)
(* A term with -k is the negative of the one with k: anybody can negate a  *)
(* signature by its encoding, so that sums may cancel, down to zero.       *)
(* In the generic-group reading two elements are equal iff their formal    *)
(* sums are, and a pairing equation holds iff it holds for formal sums.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NK,        \* base key pairs
          NM,        \* messages
          NP,        \* public key slots; 1..NK hold the base keys
          NA, NS, NU,\* slots for aggregated keys, signatures, unsafe signatures
          MaxTerms,  \* bound on the size of a formal sum
          Depth,     \* length of the generated behaviours
          InitKind,  \* "empty" or "rich"
          Kinds      \* the calls explored

VARIABLES pk, ak, sg, us, hist
vars == <<pk, ak, sg, us, hist>>

K == 1..NK
M == 1..NM

---------------------------------------------------------------------------
(* formal sums *)
Unit(k)   == [i \in K |-> IF i = k THEN 1 ELSE 0]
PAdd(a,b) == [i \in K |-> a[i] + b[i]]
Nil == <<>>
IsNil(x) == x = <<>>

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
BagEq(s, t) == /\ Len(s) = Len(t)
               /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])

\* sums: what counts is how often a term occurs, less its negatives
Neg(s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.k = -s[i].k]]
Net(s, x) == Count(s, x) - Count(s, [x EXCEPT !.k = -x.k])
Positive(s) == \A i \in DOMAIN s : s[i].k > 0
SumEq(s, t) == IF Positive(s) /\ Positive(t) THEN BagEq(s, t)
               ELSE \A x \in {s[i] : i \in DOMAIN s} \cup {t[i] : i \in DOMAIN t} : Net(s, x) = Net(t, x)
Zero(s) == IF Positive(s) THEN s = <<>> ELSE \A i \in DOMAIN s : Net(s, s[i]) = 0

RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)

RECURSIVE PTerms(_, _, _, _)
\* the terms  H1(P) * P(k) * x_k * H0(m)  for k = i..NK
PTerms(P, W, m, i) == IF i > NK THEN <<>>
                      ELSE Rep([w |-> W, k |-> i, m |-> m], P[i]) \o PTerms(P, W, m, i + 1)
RECURSIVE ATerms(_, _)
ATerms(a, m) == IF a = <<>> THEN <<>> ELSE PTerms(Head(a), Head(a), m, 1) \o ATerms(Tail(a), m)

RECURSIVE UTermsFrom(_, _, _)
UTermsFrom(P, m, i) == IF i > NK THEN <<>> ELSE Rep([k |-> i, m |-> m], P[i]) \o UTermsFrom(P, m, i + 1)
UTerms(P, m) == UTermsFrom(P, m, 1)

Weigh(u, W) == [i \in DOMAIN u |-> [w |-> W, k |-> u[i].k, m |-> u[i].m]]

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

---------------------------------------------------------------------------
(* what the verifiers must answer *)
VerifyOK(a, m, s)   == SumEq(ATerms(a, m), s)
VerifyUOK(P, m, u)  == SumEq(UTerms(P, m), u)
Distinct(ms)        == \A i, j \in DOMAIN ms : i # j => ms[i] # ms[j]
BatchShape(ks, ms)  == Len(ks) = Len(ms) /\ Len(ms) > 0
BatchOK(as, ms, s)  == /\ BatchShape(as, ms)
                       /\ Distinct(ms)
                       /\ SumEq(Cat([i \in DOMAIN as |-> ATerms(as[i], ms[i])]), s)
BatchUOK(ps, ms, u, rep) == /\ BatchShape(ps, ms)
                            /\ (rep \/ Distinct(ms))
                            /\ SumEq(Cat([i \in DOMAIN ps |-> UTerms(ps[i], ms[i])]), u)

---------------------------------------------------------------------------
(* calls *)
GoodPk  == {"raw", "text"}
BadPk   == {"tbad", "trail", "short", "flag", "empty", "ident", "off", "noncanon", "twist"}
GoodSig == {"raw", "comp"}
BadSig  == {"trail", "short", "empty", "off", "noncanon", "cflag", "cshort", "coff", "cnoncanon"}
BadDec  == BadSig \cup {"draw"}      \* also: the uncompressed form given to Decompress

PSlot == 1..NP
DSlot == (NK+1)..NP
ASlot == 1..NA
SSlot == 1..NS
USlot == 1..NU

LiveP == {p \in PSlot : ~IsNil(pk[p])}
LiveA == {a \in ASlot : ~IsNil(ak[a])}
LiveS == {s \in SSlot : ~IsNil(sg[s])}
LiveU == {u \in USlot : ~IsNil(us[u])}

\* whether the zero signature is an encoding that a decoder takes is left open
NzS == {s \in LiveS : ~Zero(sg[s])}
NzU == {u \in LiveU : ~Zero(us[u])}

Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Small(s) == Len(s) <= MaxTerms

\* Each kind: the set of argument records for which the call is explored in this state
Args(kd) ==
  CASE kd = "pkagg"  -> {[d |-> d, a |-> a, b |-> b] : d \in DSlot, a \in LiveP, b \in LiveP}
    [] kd = "pkdec"  -> {[d |-> d, p |-> p, f |-> f] : d \in DSlot, p \in LiveP, f \in GoodPk \cup BadPk}
    [] kd = "newapk" -> {[d |-> d, p |-> p] : d \in ASlot, p \in LiveP}
    [] kd = "aggapks"-> {[d |-> d, ps |-> ps] : d \in ASlot, ps \in Seqs(LiveP, 0, 3)}
    [] kd = "apkagg" -> {[d |-> d, p |-> p] : d \in {x \in LiveA : Len(ak[x]) < MaxTerms}, p \in LiveP}
    [] kd = "apkaggb"-> {[d |-> d, p |-> p, f |-> f] : d \in {x \in LiveA : Len(ak[x]) < MaxTerms}, p \in LiveP, f \in {"raw"} \cup BadPk}
    [] kd = "apkcopy"-> {[d |-> d, s |-> s] : d \in ASlot, s \in LiveA}
    [] kd = "apkdec" -> {[d |-> d, s |-> s, f |-> f] : d \in ASlot, s \in LiveA, f \in GoodPk \cup BadPk}
    [] kd = "sign"   -> {[d |-> d, k |-> k, p |-> p, m |-> m] : d \in SSlot, k \in K, p \in LiveP, m \in M}
    [] kd = "signok" -> {[d |-> d, k |-> k, p |-> k, m |-> m] : d \in SSlot, k \in K, m \in M}
    [] kd = "sigadd" -> {[d |-> d, p |-> p, u |-> u] : d \in {x \in LiveS : Len(sg[x]) < MaxTerms}, p \in LiveP, u \in {x \in LiveU : Len(us[x]) < 3}}
    [] kd = "sigagg" -> {[d |-> d, s |-> s] : d \in {x \in LiveS : Len(sg[x]) < MaxTerms}, s \in LiveS}
    [] kd = "sigaggb"-> {[d |-> d, s |-> s, f |-> f] : d \in {x \in LiveS : Len(sg[x]) < MaxTerms}, s \in NzS, f \in GoodSig \cup BadSig}
    [] kd = "signeg" -> {[d |-> d, s |-> s, f |-> f] : d \in SSlot, s \in NzS, f \in {"raw", "comp", "dcomp"}}
    [] kd = "sigsub" -> {[d |-> d, s |-> s, f |-> f] : d \in {x \in LiveS : Len(sg[x]) < MaxTerms}, s \in NzS, f \in GoodSig}
    [] kd = "sigcopy"-> {[d |-> d, s |-> s] : d \in SSlot, s \in LiveS}
    [] kd = "sigdec" -> {[d |-> d, s |-> s, f |-> f] : d \in SSlot, s \in NzS, f \in GoodSig \cup {"dcomp"} \cup BadDec}
    [] kd = "usign"  -> {[d |-> d, k |-> k, m |-> m] : d \in USlot, k \in K, m \in M}
    [] kd = "uagg"   -> {[d |-> d, a |-> a, b |-> b] : d \in USlot, a \in LiveU, b \in LiveU}
    [] kd = "ubatch" -> {[d |-> d, l |-> l] : d \in USlot, l \in Seqs(LiveU, 0, 3)}
    [] kd = "uneg"   -> {[d |-> d, s |-> s, f |-> f] : d \in USlot, s \in NzU, f \in {"raw", "dcomp"}}
    [] kd = "udec"   -> {[d |-> d, s |-> s, f |-> f] : d \in USlot, s \in NzU, f \in {"raw", "dcomp"} \cup BadDec}
    [] kd = "verify" -> {[a |-> a, m |-> m, s |-> s] : a \in LiveA, m \in M, s \in LiveS}
    [] kd = "verifyt"-> {r \in {[a |-> a, m |-> m, s |-> s] : a \in LiveA, m \in M, s \in LiveS} : VerifyOK(ak[r.a], r.m, sg[r.s])}
    [] kd = "vu"     -> {[p |-> p, m |-> m, u |-> u] : p \in LiveP, m \in M, u \in LiveU}
    [] kd = "vut"    -> {r \in {[p |-> p, m |-> m, u |-> u] : p \in LiveP, m \in M, u \in LiveU} : VerifyUOK(pk[r.p], r.m, us[r.u])}
    [] kd = "vbatch" -> {[as |-> as, ms |-> ms, s |-> s] : as \in Seqs(LiveA, 0, 2), ms \in Seqs(M, 0, 2), s \in LiveS}
    [] kd = "vub"    -> {[ps |-> ps, ms |-> ms, u |-> u] : ps \in Seqs(LiveP, 0, 2), ms \in Seqs(M, 0, 2), u \in LiveU}
    [] kd = "vcomp"  -> {[ps |-> ps, ms |-> ms, u |-> u, rep |-> rep, f |-> f] :
                            ps \in Seqs(LiveP, 0, 2), ms \in Seqs(M, 0, 2), u \in LiveU, rep \in BOOLEAN, f \in {"comp", "cflag", "cshort", "coff"}}
    [] kd = "vbatcht"-> {r \in {[as |-> as, ms |-> ms, s |-> s] : as \in Seqs(LiveA, 1, 2), ms \in Seqs(M, 1, 2), s \in LiveS} :
                            Len(r.as) = Len(r.ms) /\ BatchOK([i \in DOMAIN r.as |-> ak[r.as[i]]], r.ms, sg[r.s])}
    [] kd = "vubt"   -> {r \in {[ps |-> ps, ms |-> ms, u |-> u] : ps \in Seqs(LiveP, 1, 2), ms \in Seqs(M, 1, 2), u \in LiveU} :
                            Len(r.ps) = Len(r.ms) /\ BatchUOK([i \in DOMAIN r.ps |-> pk[r.ps[i]]], r.ms, us[r.u], FALSE)}
    [] OTHER -> {}

\* The effect of a call: [ok, pk, ak, sg, us]. Calls not mentioned leave a store as it was.
Res(ok) == [ok |-> ok, pk |-> pk, ak |-> ak, sg |-> sg, us |-> us]
Eff(kd, x) ==
  CASE kd = "pkagg"   -> [Res(TRUE) EXCEPT !.pk = [pk EXCEPT ![x.d] = PAdd(pk[x.a], pk[x.b])]]
    [] kd = "pkdec"   -> IF x.f \in GoodPk THEN [Res(TRUE) EXCEPT !.pk = [pk EXCEPT ![x.d] = pk[x.p]]] ELSE Res(FALSE)
    [] kd = "newapk"  -> [Res(TRUE) EXCEPT !.ak = [ak EXCEPT ![x.d] = <<pk[x.p]>>]]
    [] kd = "aggapks" -> IF x.ps = <<>> THEN Res(FALSE)
                         ELSE [Res(TRUE) EXCEPT !.ak = [ak EXCEPT ![x.d] = [i \in DOMAIN x.ps |-> pk[x.ps[i]]]]]
    [] kd = "apkagg"  -> [Res(TRUE) EXCEPT !.ak = [ak EXCEPT ![x.d] = Append(@, pk[x.p])]]
    [] kd = "apkaggb" -> IF x.f = "raw" THEN [Res(TRUE) EXCEPT !.ak = [ak EXCEPT ![x.d] = Append(@, pk[x.p])]] ELSE Res(FALSE)
    [] kd = "apkcopy" -> [Res(TRUE) EXCEPT !.ak = [ak EXCEPT ![x.d] = ak[x.s]]]
    [] kd = "apkdec"  -> IF x.f \in GoodPk THEN [Res(TRUE) EXCEPT !.ak = [ak EXCEPT ![x.d] = ak[x.s]]] ELSE Res(FALSE)
    [] kd \in {"sign", "signok"}
                      -> [Res(TRUE) EXCEPT !.sg = [sg EXCEPT ![x.d] = <<[w |-> pk[x.p], k |-> x.k, m |-> x.m]>>]]
    [] kd = "sigadd"  -> [Res(TRUE) EXCEPT !.sg = [sg EXCEPT ![x.d] = @ \o Weigh(us[x.u], pk[x.p])]]
    [] kd = "sigagg"  -> [Res(TRUE) EXCEPT !.sg = [sg EXCEPT ![x.d] = @ \o sg[x.s]]]
    [] kd = "sigaggb" -> IF x.f \in GoodSig THEN [Res(TRUE) EXCEPT !.sg = [sg EXCEPT ![x.d] = @ \o sg[x.s]]] ELSE Res(FALSE)
    [] kd = "signeg"  -> [Res(TRUE) EXCEPT !.sg = [sg EXCEPT ![x.d] = Neg(sg[x.s])]]
    [] kd = "sigsub"  -> [Res(TRUE) EXCEPT !.sg = [sg EXCEPT ![x.d] = @ \o Neg(sg[x.s])]]
    [] kd = "uneg"    -> [Res(TRUE) EXCEPT !.us = [us EXCEPT ![x.d] = Neg(us[x.s])]]
    [] kd = "sigcopy" -> [Res(TRUE) EXCEPT !.sg = [sg EXCEPT ![x.d] = sg[x.s]]]
    [] kd = "sigdec"  -> IF x.f \in GoodSig \cup {"dcomp"} THEN [Res(TRUE) EXCEPT !.sg = [sg EXCEPT ![x.d] = sg[x.s]]] ELSE Res(FALSE)
    [] kd = "usign"   -> [Res(TRUE) EXCEPT !.us = [us EXCEPT ![x.d] = <<[k |-> x.k, m |-> x.m]>>]]
    [] kd = "uagg"    -> [Res(TRUE) EXCEPT !.us = [us EXCEPT ![x.d] = us[x.a] \o us[x.b]]]
    [] kd = "ubatch"  -> IF x.l = <<>> THEN Res(FALSE)
                         ELSE [Res(TRUE) EXCEPT !.us = [us EXCEPT ![x.d] = Cat([i \in DOMAIN x.l |-> us[x.l[i]]])]]
    [] kd = "udec"    -> IF x.f \in {"raw", "dcomp"} THEN [Res(TRUE) EXCEPT !.us = [us EXCEPT ![x.d] = us[x.s]]] ELSE Res(FALSE)
    [] kd \in {"verify", "verifyt"} -> Res(VerifyOK(ak[x.a], x.m, sg[x.s]))
    [] kd \in {"vu", "vut"}         -> Res(VerifyUOK(pk[x.p], x.m, us[x.u]))
    [] kd \in {"vbatch", "vbatcht"} -> Res(BatchOK([i \in DOMAIN x.as |-> ak[x.as[i]]], x.ms, sg[x.s]))
    [] kd \in {"vub", "vubt"} -> Res(BatchUOK([i \in DOMAIN x.ps |-> pk[x.ps[i]]], x.ms, us[x.u], FALSE))
    [] kd = "vcomp"   -> Res(x.f = "comp" /\ BatchUOK([i \in DOMAIN x.ps |-> pk[x.ps[i]]], x.ms, us[x.u], x.rep))

Bounded(e) == /\ \A a \in ASlot : Len(e.ak[a]) <= MaxTerms
              /\ \A s \in SSlot : Len(e.sg[s]) <= MaxTerms
              /\ \A u \in USlot : Len(e.us[u]) <= MaxTerms
              /\ \A p \in PSlot : IF IsNil(e.pk[p]) THEN TRUE ELSE \A k \in K : e.pk[p][k] <= 3

Call(kd, x) ==
  LET e == Eff(kd, x) IN
  /\ Bounded(e)
  /\ pk' = e.pk /\ ak' = e.ak /\ sg' = e.sg /\ us' = e.us
  /\ hist' = Append(hist, [kd |-> kd, x |-> x, ok |-> e.ok, post |-> [pk |-> e.pk, ak |-> e.ak, sg |-> e.sg, us |-> e.us]])

---------------------------------------------------------------------------
PkInit == [p \in PSlot |-> IF p \in K THEN Unit(p) ELSE Nil]
T(w, k, m) == [w |-> Unit(w), k |-> k, m |-> m]
Init ==
  /\ pk = IF InitKind = "empty" THEN PkInit
          ELSE [PkInit EXCEPT ![NK + 1] = PAdd(Unit(1), Unit(2))]
  /\ ak = IF InitKind = "empty" THEN [a \in ASlot |-> Nil]
          ELSE [a \in ASlot |-> IF a = 1 THEN <<Unit(1)>> ELSE IF a = 2 THEN <<Unit(1), Unit(2)>> ELSE Nil]
  /\ sg = IF InitKind = "empty" THEN [s \in SSlot |-> Nil]
          ELSE [s \in SSlot |-> IF s = 1 THEN <<T(1,1,1)>> ELSE IF s = 2 THEN <<T(2,2,1)>> ELSE Nil]
  /\ us = IF InitKind = "empty" THEN [u \in USlot |-> Nil]
          ELSE [u \in USlot |-> IF u = 1 THEN <<[k |-> 1, m |-> 1]>> ELSE IF u = 2 THEN <<[k |-> 2, m |-> 2]>> ELSE Nil]
  /\ hist = <<>>

Next == Len(hist) < Depth /\ \E kd \in Kinds : \E x \in Args(kd) : Call(kd, x)
Spec == Init /\ [][Next]_vars

\* Generator of long behaviours: one random call per step. The arguments are drawn componentwise
\* (RandomElement is evaluated once, when the set below is built); InitKind is "rich", so that no
\* component is ever empty. A draw which the bounds exclude is skipped.
RE(S) == RandomElement(S)
RArgs(kd) ==
  CASE kd = "pkagg"  -> {[d |-> RE(DSlot), a |-> RE(LiveP), b |-> RE(LiveP)]}
    [] kd = "pkdec"  -> {[d |-> RE(DSlot), p |-> RE(LiveP), f |-> RE({RE(GoodPk), RE(BadPk)})]}
    [] kd = "newapk" -> {[d |-> RE(ASlot), p |-> RE(LiveP)]}
    [] kd = "aggapks"-> {[d |-> RE(ASlot), ps |-> RE([1..RE(0..3) -> LiveP])]}
    [] kd = "apkagg" -> {[d |-> RE(LiveA), p |-> RE(LiveP)]}
    [] kd = "apkaggb"-> {[d |-> RE(LiveA), p |-> RE(LiveP), f |-> RE({"raw", RE(BadPk)})]}
    [] kd = "apkcopy"-> {[d |-> RE(ASlot), s |-> RE(LiveA)]}
    [] kd = "apkdec" -> {[d |-> RE(ASlot), s |-> RE(LiveA), f |-> RE({RE(GoodPk), RE(BadPk)})]}
    [] kd = "sign"   -> {[d |-> RE(SSlot), k |-> RE(K), p |-> RE(LiveP), m |-> RE(M)]}
    [] kd = "signok" -> {LET k == RE(K) IN [d |-> RE(SSlot), k |-> k, p |-> k, m |-> RE(M)]}
    [] kd = "sigadd" -> {[d |-> RE(LiveS), p |-> RE(LiveP), u |-> RE(LiveU)]}
    [] kd = "sigagg" -> {[d |-> RE(LiveS), s |-> RE(LiveS)]}
    [] kd \in {"sigaggb", "signeg", "sigsub", "sigdec"} /\ NzS = {} -> {}
    [] kd \in {"uneg", "udec"} /\ NzU = {} -> {}
    [] kd = "sigaggb"-> {[d |-> RE(LiveS), s |-> RE(NzS), f |-> RE({RE(GoodSig), RE(BadSig)})]}
    [] kd = "signeg" -> {[d |-> RE(SSlot), s |-> RE(NzS), f |-> RE({"raw", "comp", "dcomp"})]}
    [] kd = "sigsub" -> {LET s == RE(NzS) IN [d |-> IF RE(1..2) = 1 THEN s ELSE RE(LiveS), s |-> s, f |-> RE(GoodSig)]}
    [] kd = "uneg"   -> {[d |-> RE(USlot), s |-> RE(NzU), f |-> RE({"raw", "dcomp"})]}
    [] kd = "sigcopy"-> {[d |-> RE(SSlot), s |-> RE(LiveS)]}
    [] kd = "sigdec" -> {[d |-> RE(SSlot), s |-> RE(NzS), f |-> RE({RE(GoodSig \cup {"dcomp"}), RE(BadDec)})]}
    [] kd = "usign"  -> {[d |-> RE(USlot), k |-> RE(K), m |-> RE(M)]}
    [] kd = "uagg"   -> {[d |-> RE(USlot), a |-> RE(LiveU), b |-> RE(LiveU)]}
    [] kd = "ubatch" -> {[d |-> RE(USlot), l |-> RE([1..RE(0..3) -> LiveU])]}
    [] kd = "udec"   -> {[d |-> RE(USlot), s |-> RE(NzU), f |-> RE({"raw", "dcomp", RE(BadDec)})]}
    [] kd = "verify" -> {[a |-> RE(LiveA), m |-> RE(M), s |-> RE(LiveS)]}
    [] kd = "vu"     -> {[p |-> RE(LiveP), m |-> RE(M), u |-> RE(LiveU)]}
    [] kd = "vbatch" -> {[as |-> RE(Seqs(LiveA, 0, 2)), ms |-> RE(Seqs(M, 0, 2)), s |-> RE(LiveS)]}
    [] kd = "vub"    -> {[ps |-> RE(Seqs(LiveP, 0, 2)), ms |-> RE(Seqs(M, 0, 2)), u |-> RE(LiveU)]}
    [] kd = "vcomp"  -> {[ps |-> RE(Seqs(LiveP, 0, 2)), ms |-> RE(Seqs(M, 0, 2)), u |-> RE(LiveU), rep |-> RE(BOOLEAN), f |-> RE({"comp", "comp", RE({"cflag", "cshort", "coff"})})]}
    [] OTHER -> LET S == Args(kd) IN IF S = {} THEN {} ELSE {RE(S)}      \* verifyt, vut, vbatcht, vubt: only what must succeed

NextRand == /\ Len(hist) < Depth
            /\ \E kd \in {RE(Kinds)} : \E A \in {RArgs(kd)} :
                 IF A # {} /\ \A x \in A : Bounded(Eff(kd, x))
                 THEN \E x \in A : Call(kd, x)
                 ELSE UNCHANGED vars
SpecRand == Init /\ [][NextRand]_vars

---------------------------------------------------------------------------
(* properties of the model itself *)

\* C01: what verifies is exactly the sum of one matching signature per aggregated key
KeyBag(a) == [P \in {a[i] : i \in DOMAIN a} |-> Count(a, P)]
Exact ==
  \A a \in LiveA, s \in LiveS, m \in M :
    VerifyOK(ak[a], m, sg[s]) =>
      /\ ~Zero(sg[s])
      /\ \A i \in DOMAIN sg[s] : Net(sg[s], sg[s][i]) > 0 => sg[s][i].m = m
      /\ \A i \in DOMAIN sg[s] : Net(sg[s], sg[s][i]) > 0 => \E j \in DOMAIN ak[a] : ak[a][j] = sg[s][i].w /\ ak[a][j][sg[s][i].k] > 0
      /\ \A j \in DOMAIN ak[a] : \A k \in K :
            Net(sg[s], [w |-> ak[a][j], k |-> k, m |-> m]) = Count(ak[a], ak[a][j]) * ak[a][j][k]
\* a signature verifies for one message at most, and for one aggregated key value at most
Unique ==
  \A a, b \in LiveA, s \in LiveS, m, n \in M :
    VerifyOK(ak[a], m, sg[s]) /\ VerifyOK(ak[b], n, sg[s]) => m = n /\ BagEq(ak[a], ak[b])
\* C02
BatchSound ==
  \A s \in LiveS, a \in LiveA, m \in M :
    /\ BatchOK(<<ak[a]>>, <<m>>, sg[s]) <=> VerifyOK(ak[a], m, sg[s])
    /\ ~BatchOK(<<>>, <<>>, sg[s])
    /\ ~BatchOK(<<ak[a], ak[a]>>, <<m>>, sg[s])
    /\ ~BatchOK(<<ak[a], ak[a]>>, <<m, m>>, sg[s])
\* C04: a step changes at most the receiver of the last call, and nothing when it failed
Frame ==
  [][LET h == hist'[Len(hist')] IN
     /\ (~h.ok => pk' = pk /\ ak' = ak /\ sg' = sg /\ us' = us)
     /\ \A p \in PSlot : pk'[p] # pk[p] => h.kd \in {"pkagg", "pkdec"} /\ h.x.d = p
     /\ \A a \in ASlot : ak'[a] # ak[a] => h.kd \in {"newapk", "aggapks", "apkagg", "apkaggb", "apkcopy", "apkdec"} /\ h.x.d = a
     /\ \A s \in SSlot : sg'[s] # sg[s] => h.kd \in {"sign", "signok", "sigadd", "sigagg", "sigaggb", "signeg", "sigsub", "sigcopy", "sigdec"} /\ h.x.d = s
     /\ \A u \in USlot : us'[u] # us[u] => h.kd \in {"usign", "uagg", "ubatch", "uneg", "udec"} /\ h.x.d = u]_vars
\* order of aggregation is irrelevant: swapping the terms of a bag changes no answer
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Commutes ==
  \A a \in LiveA, s \in LiveS, m \in M :
     VerifyOK(ak[a], m, sg[s]) = VerifyOK(Rev(ak[a]), m, Rev(sg[s]))

View == <<pk, ak, sg, us, Len(hist)>>
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
