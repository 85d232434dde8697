-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The wire formats of ring signatures, range proofs, inner-product proofs *)
(* and commitments (C14, C20): what their decoders accept, how much of the *)
(* input they consume and which values are equal.                          *)
(*                                                                         *)
(* An input is a sequence of tokens                                        *)
(*   [t: "s", q, v]  32 bytes of a scalar; q = "ok" canonical, "nc" not    *)
(*   [t: "p", q, v]  32 bytes of a point;  q = "ok", "nc" an encoding that *)
(*                   is not the canonical one, "bad" of no point           *)
(*   [t: "u", q, v]  four bytes of a count; negative: absurdly large       *)
(*   [t: "r", q, v]  v bytes of junk                                       *)
(* v names the value: 0 is the zero scalar / the identity.                 *)
(* Reading a field out of the bytes of another type may or may not work:   *)
(* the outcome is then "any", unless the input is too short in any event.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Fmts, Shapes, Depth   \* Shapes: 10 * n + k

VARIABLES f, n, k, w, es
vars == <<f, n, k, w, es>>

S(v) == [t |-> "s", q |-> "ok", v |-> v]
P(v) == [t |-> "p", q |-> "ok", v |-> v]
U(v) == [t |-> "u", q |-> "ok", v |-> v]
R(v) == [t |-> "r", q |-> "ok", v |-> v]
Size(x) == CASE x.t = "u" -> 4 [] x.t = "r" -> x.v [] OTHER -> 32
RECURSIVE Bytes(_)
Bytes(q) == IF q = <<>> THEN 0 ELSE Size(Head(q)) + Bytes(Tail(q))

Pts(b, c) == [i \in 1..c |-> P(b + i)]
Scs(b, c) == [i \in 1..c |-> S(b + i)]
IP(r) == <<S(501), S(502)>> \o Pts(600, 2 * r)
Core == <<P(301), P(302), P(303), P(304), S(401), S(402), S(403)>>
Base(ff, nn, kk) ==
  CASE ff = "mlsag+"  -> IF nn = 0 THEN <<S(1), U(0)>> ELSE <<S(1), U(nn), U(kk)>> \o Scs(100, nn * kk) \o Pts(200, nn * kk)
    [] ff = "mlsag"   -> IF nn = 0 THEN <<S(1), U(0)>> ELSE <<S(1), U(nn), U(kk)>> \o Scs(100, nn * kk)
    [] ff = "resp"    -> Scs(100, nn * kk)
    [] ff = "keys"    -> Pts(200, nn * kk)
    [] ff = "commit"  -> <<P(201)>>
    [] ff = "commits" -> <<U(nn)>> \o Pts(200, nn)
    [] ff = "ip"      -> IP(nn)
    [] ff = "range+"  -> <<U(nn)>> \o Pts(200, nn) \o Core \o IP(kk)
    [] ff = "range"   -> Core \o IP(kk)

---------------------------------------------------------------------------
\* what is to be read, field by field
Fields(t, c) == [i \in 1..c |-> t]
Huge(v) == v < 0 \/ v > 64
Res(o, q, c) == [out |-> o, rest |-> Bytes(q), used |-> c]

\* read the given fields; c: how many tokens were consumed so far
RECURSIVE Rd(_, _, _)
Rd(fs, q, c) ==
  IF fs = <<>> THEN Res("ok", q, c)
  ELSE IF Bytes(q) < 32 * Len(fs) THEN Res("err", <<>>, c)
  ELSE LET x == Head(q) IN
       IF x.t # Head(fs) THEN Res("any", <<>>, c)
       ELSE IF x.q # "ok" THEN Res("err", <<>>, c)
       ELSE Rd(Tail(fs), Tail(q), c + 1)

Junk(q) == q # <<>> /\ Head(q).t = "r" /\ Head(q).v = 0
RdRest(q, c) == \* until the end of the input: pairs of points
  IF Bytes(q) % 64 # 0 THEN Res("err", <<>>, c)
  ELSE Rd(Fields("p", Bytes(q) \div 32), q, c)
After(r, q, c0, Then(_, _)) == IF r.out # "ok" THEN r ELSE Then(SubSeq(q, r.used - c0 + 1, Len(q)), r.used)
RdIP(q, c) == LET r == Rd(<<"s", "s">>, q, c) IN After(r, q, c, RdRest)
RdRange(q, c) == LET r == Rd(Fields("p", 4) \o Fields("s", 3), q, c) IN
                 IF r.out # "ok" THEN (IF Bytes(q) < 9 * 32 THEN Res("err", <<>>, c) ELSE r) ELSE After(r, q, c, RdIP)
RdMlsag(q, keys) ==
  LET r == Rd(<<"s">>, q, 0) IN
  IF r.out # "ok" THEN r
  ELSE LET q1 == Tail(q) IN
  IF Bytes(q1) < 4 THEN Res("err", <<>>, 1)
  ELSE IF Head(q1).t # "u" THEN Res("any", <<>>, 1)
  ELSE IF Head(q1).v = 0 THEN Res("ok", Tail(q1), 2)
  ELSE LET q2 == Tail(q1) IN
  IF Bytes(q2) < 4 THEN Res("err", <<>>, 2)
  ELSE IF Head(q2).t # "u" THEN Res("any", <<>>, 2)
  ELSE IF Head(q2).v = 0 \/ Huge(Head(q1).v) \/ Huge(Head(q2).v) THEN Res("err", <<>>, 3)
  ELSE LET c == Head(q1).v * Head(q2).v IN
       IF c > 200 THEN Res("err", <<>>, 3) ELSE Rd(Fields("s", c) \o IF keys THEN Fields("p", c) ELSE <<>>, Tail(q2), 3)
RdCounted(q, Then(_, _)) ==
  IF Bytes(q) < 4 THEN Res("err", <<>>, 0)
  ELSE IF Head(q).t # "u" THEN Res("any", <<>>, 0)
  ELSE IF Huge(Head(q).v) THEN Res("err", <<>>, 0)
  ELSE LET r == Rd(Fields("p", Head(q).v), Tail(q), 1) IN After(r, Tail(q), 1, Then)
Done(q, c) == Res("ok", q, c)
Decode(q) ==
  CASE f = "mlsag+"  -> RdMlsag(q, TRUE)
    [] f = "mlsag"   -> RdMlsag(q, FALSE)
    [] f = "resp"    -> Rd(Fields("s", n * k), q, 0)
    [] f = "keys"    -> Rd(Fields("p", n * k), q, 0)
    [] f = "commit"  -> Rd(<<"p">>, q, 0)
    [] f = "commits" -> RdCounted(q, Done)
    [] f = "ip"      -> RdIP(q, 0)
    [] f = "range+"  -> RdCounted(q, RdRange)
    [] f = "range"   -> RdRange(q, 0)

---------------------------------------------------------------------------
\* the parts under comparison: everything, or all but the keys / commitments
B0 == Base(f, n, k)
Used == SubSeq(w, 1, Decode(w).used)
NoKeys(q) == CASE f = "mlsag+" -> IF Len(q) < 3 THEN q ELSE SubSeq(q, 1, 3 + q[2].v * q[3].v)
               [] f = "range+" -> SubSeq(q, 2 + q[1].v, Len(q))
               [] OTHER -> q
Ok == Decode(w).out = "ok"
Eq == Ok /\ Used = SubSeq(B0, 1, Len(B0))
EqPart == Ok /\ NoKeys(Used) = NoKeys(B0)

---------------------------------------------------------------------------
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Ins(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
Counts == {0, 1, 2, 3, 5, 33, -1, -2, -3, -4, -5, -6, -7}
Edits(q) ==
       {[e |-> "trunc", i |-> i, b |-> b] : i \in 1..Len(q), b \in {0, 1, 3, 31}}
  \cup {[e |-> "q", i |-> i, x |-> x] : i \in {j \in 1..Len(q) : q[j].t \in {"s", "p"}}, x \in {"nc", "bad"}}
  \cup {[e |-> "v", i |-> i, y |-> x] : i \in {j \in 1..Len(q) : q[j].t \in {"s", "p"}}, x \in {0, 901}}
  \cup {[e |-> "v", i |-> i, y |-> x] : i \in {j \in 1..Len(q) : q[j].t = "u"}, x \in Counts}
  \cup {[e |-> "drop", i |-> i] : i \in 1..Len(q)}
  \cup {[e |-> "dup", i |-> i] : i \in 1..Len(q)}
  \cup {[e |-> "swap", i |-> i, j |-> j] : i \in 1..Len(q), j \in 1..Len(q)}
  \cup {[e |-> "junk", i |-> i, b |-> b] : i \in 0..Len(q), b \in {1, 32}}
  \cup {[e |-> "app", x |-> x] : x \in {"s", "p", "pp", "ppp", "pbad"}}
  \cup {[e |-> "none"]}
Possible(q, x) == CASE x.e = "trunc" -> x.b < Size(q[x.i])
                    [] x.e = "q" -> ~(q[x.i].t = "s" /\ x.x = "bad") /\ q[x.i].q = "ok"
                    [] x.e = "swap" -> x.i < x.j
                    [] OTHER -> TRUE
Apply(q, x) ==
  CASE x.e = "trunc" -> SubSeq(q, 1, x.i - 1) \o IF x.b = 0 THEN <<>> ELSE <<R(x.b)>>
    [] x.e = "q" -> [q EXCEPT ![x.i].q = x.x]
    [] x.e = "v" -> [q EXCEPT ![x.i].v = x.y]
    [] x.e = "drop" -> Drop(q, x.i)
    [] x.e = "dup" -> Ins(q, x.i, q[x.i])
    [] x.e = "swap" -> [q EXCEPT ![x.i] = q[x.j], ![x.j] = q[x.i]]
    [] x.e = "junk" -> Ins(q, x.i, R(x.b))
    [] x.e = "app" -> q \o (CASE x.x = "s" -> <<S(902)>> [] x.x = "p" -> <<P(902)>> [] x.x = "pp" -> <<P(902), P(903)>>
                            [] x.x = "ppp" -> <<P(902), P(903), P(904)>> [] x.x = "pbad" -> <<P(902), [P(903) EXCEPT !.q = "bad"]>>)
    [] x.e = "none" -> q

Init == /\ f \in Fmts
        /\ \E s \in Shapes : n = s \div 10 /\ k = s % 10
        /\ w = Base(f, n, k) /\ es = <<>>
Do(x) == w' = Apply(w, x) /\ es' = Append(es, x) /\ UNCHANGED <<f, n, k>>
Next == Len(es) < Depth /\ \E x \in Edits(w) : Possible(w, x) /\ Do(x)
Spec == Init /\ [][Next]_vars
NextRand == Len(es) < Depth /\ \E x \in {RandomElement(Edits(w))} : IF Possible(w, x) THEN Do(x) ELSE UNCHANGED vars
SpecRand == Init /\ [][NextRand]_vars

\* what was encoded is decoded, completely, to an equal value
Lossless == es = <<>> => Ok /\ Eq /\ EqPart /\ Decode(w).rest = 0
\* no decoder accepts a field that is not a canonical encoding, nor more than there is
Canonical == Ok => /\ \A i \in 1..Decode(w).used : w[i].q = "ok" /\ w[i].t # "r"
                   /\ Bytes(w) = Bytes(Used) + Decode(w).rest
\* a strict prefix of an encoding is refused, except that inner-product proofs may end after each pair of points
Prefix == (Len(es) = 1 /\ es[1].e = "trunc") =>
             (Decode(w).out = "err" \/ (f \in {"ip", "range", "range+"} /\ (Bytes(B0) - Bytes(w)) % 64 = 0))
Out == [f |-> f, n |-> n, k |-> k, w |-> w, base |-> B0, out |-> Decode(w).out, rest |-> Decode(w).rest, eq |-> Eq, eqp |-> EqPart, es |-> es]
Emit == Len(es) > 0 => PrintT("@@" \o ToJson(Out))
EmitLast == Len(es) = Depth => PrintT("@@" \o ToJson(Out))
=============================================================================
