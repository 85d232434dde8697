------------------------------ MODULE BLSTrace ------------------------------
(***************************************************************************)
(* Histories recorded from the library, validated against BLS.tla. A step  *)
(* of a history is a call, whether it succeeded, and a number for the      *)
(* encoding of every object afterwards: equal numbers for equal bytes.     *)
(* The history conforms iff every call is the specification's and equal    *)
(* numbers mean equal values, now and at all earlier times.                *)
(***************************************************************************)
EXTENDS BLS

VARIABLES tr, l, seen
tvars == <<pk, ak, sg, us, hist, tr, l, seen>>

Traces == ndJsonDeserialize("traces.ndjson")

TInit == /\ pk = PkInit
         /\ ak = [a \in ASlot |-> Nil] /\ sg = [s \in SSlot |-> Nil] /\ us = [u \in USlot |-> Nil]
         /\ hist = <<>> /\ seen = <<>> /\ l = 1
         /\ tr \in DOMAIN Traces

\* the values present after a step, with their numbers
In(kind, vs, cs) == {[g |-> kind, c |-> cs[i], v |-> vs[i], i |-> i] : i \in DOMAIN cs}
ValEq(kind, a, b) == IF kind = "pk" THEN a = b ELSE IF kind = "ak" THEN BagEq(a, b) ELSE SumEq(a, b)
\* a number stands for one value of one kind; 0 for no object
Nought(x) == x.g \in {"sg", "us"} /\ Zero(x.v)
Agree(x, y) == (x.c = y.c) <=> ((x.g = y.g /\ ValEq(x.g, x.v, y.v)) \/ (Nought(x) /\ Nought(y)))
Good(x, known) == IF x.c = 0 THEN IsNil(x.v) ELSE ~IsNil(x.v) /\ \A j \in DOMAIN known : Agree(x, known[j])
RECURSIVE Learn(_, _)
Learn(xs, known) == IF xs = <<>> THEN known
                    ELSE IF Head(xs).c = 0 \/ \E j \in DOMAIN known : known[j].c = Head(xs).c THEN Learn(Tail(xs), known)
                    ELSE Learn(Tail(xs), Append(known, Head(xs)))
List(e, s) == [i \in PSlot |-> [g |-> "pk", c |-> s.cls.pk[i], v |-> e.pk[i], i |-> i]]
              \o [i \in ASlot |-> [g |-> "ak", c |-> s.cls.ak[i], v |-> e.ak[i], i |-> i]]
              \o [i \in SSlot |-> [g |-> "sg", c |-> s.cls.sg[i], v |-> e.sg[i], i |-> i]]
              \o [i \in USlot |-> [g |-> "us", c |-> s.cls.us[i], v |-> e.us[i], i |-> i]]
Store(kd) == CASE kd \in {"pkagg", "pkdec"} -> "pk"
               [] kd \in {"newapk", "aggapks", "apkagg", "apkaggb", "apkcopy", "apkdec"} -> "ak"
               [] kd \in {"sign", "signok", "sigadd", "sigagg", "sigaggb", "signeg", "sigsub", "sigcopy", "sigdec"} -> "sg"
               [] kd \in {"usign", "uagg", "ubatch", "uneg", "udec"} -> "us"
               [] OTHER -> ""
\* the first object that is not what it should be
RECURSIVE Wrong(_, _, _)
Wrong(xs, i, known) == IF i > Len(xs) THEN 0
                       ELSE IF ~Good(xs[i], known) THEN i
                       ELSE Wrong(xs, i + 1, Learn(<<xs[i]>>, known))
Verdict(s) ==
  IF s.kd = "panic" THEN [what |-> "panic", e |-> <<>>, xs |-> <<>>]
  ELSE LET e == Eff(s.kd, s.x) IN
       IF e.ok # s.ok THEN [what |-> "answer", e |-> <<>>, xs |-> <<>>]
       ELSE LET xs == List(e, s)
                w == Wrong(xs, 1, seen)
            IN IF w = 0 THEN [what |-> "", e |-> e, xs |-> xs]
               ELSE [what |-> IF xs[w].g = Store(s.kd) /\ xs[w].i = s.x.d THEN "value" ELSE "frame", e |-> <<>>, xs |-> <<>>]
Report(s, what) == PrintT("@@" \o ToJson([t |-> tr, step |-> l, kd |-> s.kd, what |-> what]))
TNext == /\ l <= Len(Traces[tr])
         /\ LET s == Traces[tr][l]
                v == Verdict(s)
            IN IF v.what # "" THEN /\ Report(s, v.what) /\ l' = Len(Traces[tr]) + 2
                                   /\ UNCHANGED <<pk, ak, sg, us, seen>>
               ELSE /\ l' = l + 1
                    /\ pk' = v.e.pk /\ ak' = v.e.ak /\ sg' = v.e.sg /\ us' = v.e.us
                    /\ seen' = Learn(v.xs, seen)
         /\ UNCHANGED <<hist, tr>>
TSpec == TInit /\ [][TNext]_tvars
TView == <<tr, l>>
\* every history was followed to its end or reported
Ended == (l = Len(Traces[tr]) + 1) => PrintT("@@" \o ToJson([t |-> tr, step |-> 0, kd |-> "", what |-> "ok"]))
=============================================================================
