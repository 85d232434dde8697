---------------------------- MODULE MerkleTrace -----------------------------
(***************************************************************************)
(* Histories of a merkle tree recorded from the library, validated against *)
(* Merkle.tla. A step is a call, its answer, the payload whose error came  *)
(* back, and the tree: every hash in it as a number, equal numbers for     *)
(* equal bytes. Numbers and symbolic hashes must correspond one to one,    *)
(* over the whole history.                                                 *)
(***************************************************************************)
EXTENDS Merkle

VARIABLES tr, l, c2t, t2c
tvars == <<val, bad, tree, hist, tr, l, c2t, t2c>>
Traces == ndJsonDeserialize("traces.ndjson")
TInit == /\ val = [p \in Pay |-> ((p - 1) % NV) + 1] /\ bad = {} /\ tree = NoTree /\ hist = <<>>
         /\ c2t = <<>> /\ t2c = [x \in {} |-> 0] /\ l = 1 /\ tr \in DOMAIN Traces

\* the answer of the specification; hist only matters for the names of forged hashes, for which the step's number is used
EffT(kd, x) ==
  CASE kd = "troot" -> R("true", {}, [tree EXCEPT !.root = Forged(l)])
    [] kd = "tleaf" -> R("true", {}, [tree EXCEPT !.lv[1][x.i].h = Forged(l)])
    [] kd = "tnode" -> R("true", {}, [tree EXCEPT !.lv[x.l][x.i].h = Forged(l)])
    [] OTHER -> Eff(kd, x)
\* pairs <<number, term>> the recorded tree gives
PairsOf(t, s) == {<<s.cls.root, t.root>>} \cup UNION {{<<s.cls.lv[k][i], t.lv[k][i].h>> : i \in DOMAIN t.lv[k]} : k \in DOMAIN t.lv}
Shape(t, s) == /\ Len(s.cls.lv) = Len(t.lv)
               /\ \A k \in DOMAIN t.lv : Len(s.cls.lv[k]) >= Len(t.lv[k])
               /\ Len(s.cls.leaves) = Len(t.lv[1])
               /\ \A i \in DOMAIN t.lv[1] : s.cls.leaves[i].p = t.lv[1][i].p /\ s.cls.leaves[i].dup = t.lv[1][i].dup
OneToOne(ps) == /\ \A a \in ps : (a[1] \in DOMAIN c2t => c2t[a[1]] = a[2]) /\ (a[2] \in DOMAIN t2c => t2c[a[2]] = a[1])
                /\ Cardinality({a[1] : a \in ps}) = Cardinality(ps) /\ Cardinality({a[2] : a \in ps}) = Cardinality(ps)
\* numbers are given in order of appearance, so that c2t is a sequence
ErrOK(e, s) == e.ans = "err" /\ s.err \notin e.errs => IF s.kd = "vcontent" THEN s.x.b /\ s.err = 1000 ELSE e.errs = {}
Verdict(s) ==
  IF s.kd = "panic" THEN [what |-> "panic", e |-> <<>>, ps |-> {}]
  ELSE LET e == EffT(s.kd, s.x) IN
       IF e.ans # "any" /\ e.ans # s.ok THEN [what |-> IF "err" \in {e.ans, s.ok} THEN "answererr" ELSE "answer", e |-> <<>>, ps |-> {}]
       ELSE IF ~ErrOK(e, s) THEN [what |-> "errvalue", e |-> <<>>, ps |-> {}]
       ELSE IF e.tree = NoTree THEN [what |-> IF s.cls.lv = <<>> THEN "" ELSE "value", e |-> e, ps |-> {}]
       ELSE IF ~Shape(e.tree, s) THEN [what |-> "value", e |-> <<>>, ps |-> {}]
       ELSE LET ps == PairsOf(e.tree, s) IN
            [what |-> IF OneToOne(ps) THEN "" ELSE "value", e |-> e, ps |-> ps]
Report(s, what) == PrintT("@@" \o ToJson([t |-> tr, step |-> l, kd |-> s.kd, what |-> what]))
TNext == /\ l <= Len(Traces[tr])
         /\ LET s == Traces[tr][l]
                v == Verdict(s)
            IN IF v.what # "" THEN /\ Report(s, v.what) /\ l' = Len(Traces[tr]) + 2
                                   /\ UNCHANGED <<val, bad, tree, c2t, t2c>>
               ELSE /\ l' = l + 1
                    /\ val' = v.e.val /\ bad' = v.e.bad /\ tree' = v.e.tree
                    /\ c2t' = [c \in DOMAIN c2t \cup {a[1] : a \in v.ps} |-> IF c \in DOMAIN c2t THEN c2t[c] ELSE (CHOOSE a \in v.ps : a[1] = c)[2]]
                    /\ t2c' = [t \in DOMAIN t2c \cup {a[2] : a \in v.ps} |-> IF t \in DOMAIN t2c THEN t2c[t] ELSE (CHOOSE a \in v.ps : a[2] = t)[1]]
         /\ UNCHANGED <<hist, tr>>
TSpec == TInit /\ [][TNext]_tvars
TView == <<tr, l>>
Ended == (l = Len(Traces[tr]) + 1) => PrintT("@@" \o ToJson([t |-> tr, step |-> 0, kd |-> "", what |-> "ok"]))
=============================================================================
