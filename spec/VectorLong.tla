------------------------------ MODULE VectorLong -----------------------------
(***************************************************************************)
(* Operations on long vectors of full-size scalars (C23). The result of    *)
(* an operation is a polynomial per element: a list of monomials           *)
(* k * a_i^a * b_i^b * s^(c + e*i) (i counts from 0), which is summed up   *)
(* when the result is a single scalar or point. Polynomials are evaluated  *)
(* outside the specification with exact integers.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, ExpNs, Fills, Far   \* Far: lengths far away, in a few combinations only
VARIABLE c
Mono(k, a, b, s, e) == [k |-> k, a |-> a, b |-> b, s |-> s, e |-> e]
Ops == {"add", "sub", "had", "neg", "adds", "subs", "muls", "ip", "pows", "powsum", "from", "split", "splitp", "exp"}
Poly(o) ==
  CASE o = "add" -> <<Mono(1, 1, 0, 0, 0), Mono(1, 0, 1, 0, 0)>>
    [] o = "sub" -> <<Mono(1, 1, 0, 0, 0), Mono(-1, 0, 1, 0, 0)>>
    [] o \in {"had", "ip", "exp"} -> <<Mono(1, 1, 1, 0, 0)>>
    [] o = "neg" -> <<Mono(-1, 1, 0, 0, 0)>>
    [] o = "adds" -> <<Mono(1, 1, 0, 0, 0), Mono(1, 0, 0, 1, 0)>>
    [] o = "subs" -> <<Mono(1, 1, 0, 0, 0), Mono(-1, 0, 0, 1, 0)>>
    [] o = "muls" -> <<Mono(1, 1, 0, 1, 0)>>
    [] o \in {"pows", "powsum"} -> <<Mono(1, 0, 0, 0, 1)>>
    [] o = "from" -> <<Mono(1, 0, 0, 1, 0)>>
    [] OTHER -> <<Mono(1, 1, 0, 0, 0)>>
Summed(o) == o \in {"ip", "powsum", "exp"}
Two(o) == o \in {"add", "sub", "had", "ip", "exp"}
Split(o) == o \in {"split", "splitp"}
\* d: how much longer the second operand is; at: the place of a split, or N * M for exp
Ats(o, n) == IF Split(o) \/ o = "exp" THEN {x \in {0, 1, n \div 2, n - 1, n, n + 1} : x >= 0} ELSE {0}
Ds(o, n) == IF Two(o) THEN {x \in {0, 1, -1, n} : n + x >= 0} ELSE {0}
Ok(o, n, d, at) == CASE Split(o) -> at < n [] o = "exp" -> d = 0 /\ at <= n [] OTHER -> d = 0
Sizes(o) == IF o \in {"exp", "splitp"} THEN ExpNs ELSE Ns
FarInit == \E o \in Ops \ {"exp", "splitp"} : \E n \in Far : LET at == IF Split(o) THEN n - 1 ELSE 0 IN
          c = [o |-> o, fill |-> "rand", n |-> n, d |-> 0, at |-> at, ok |-> TRUE, sum |-> Summed(o), poly |-> Poly(o)]
Init == FarInit \/ \E o \in Ops : \E f \in Fills : \E n \in Sizes(o) : \E d \in Ds(o, n) : \E at \in Ats(o, n) :
          c = [o |-> o, fill |-> f, n |-> n, d |-> d, at |-> at, ok |-> Ok(o, n, d, at), sum |-> Summed(o), poly |-> Poly(o)]
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
\* the polynomials agree with the laws of the operations at small numbers
RECURSIVE Pw(_, _)
Pw(x, n) == IF n = 0 THEN 1 ELSE x * Pw(x, n - 1)
RECURSIVE Eval(_, _, _, _, _)
Eval(p, a, b, s, i) == IF p = <<>> THEN 0 ELSE LET m == Head(p) IN m.k * Pw(a, m.a) * Pw(b, m.b) * Pw(s, m.s + m.e * i) + Eval(Tail(p), a, b, s, i)
Laws == \A a, b, s \in -2..2 : \A i \in 0..3 :
          /\ Eval(Poly("sub"), a, b, s, i) = Eval(Poly("add"), a, Eval(Poly("neg"), b, b, s, i), s, i)
          /\ Eval(Poly("muls"), a, b, s, i) = Eval(Poly("had"), a, Eval(Poly("from"), a, b, s, i), s, i)
          /\ Eval(Poly("adds"), a, b, s, i) = Eval(Poly("add"), a, Eval(Poly("from"), a, b, s, i), s, i)
          /\ Eval(Poly("subs"), a, b, s, i) = Eval(Poly("sub"), a, Eval(Poly("from"), a, b, s, i), s, i)
          /\ Eval(Poly("pows"), a, b, s, i + 1) = s * Eval(Poly("pows"), a, b, s, i)
Emit == PrintT("@@" \o ToJson(c))
=============================================================================
