---------------------------- MODULE VectorStore ------------------------------
(***************************************************************************)
(* Vectors of scalars and points (C23) as a store. Scalars are integers    *)
(* (read modulo the group order), points integer multiples of one base     *)
(* point. Every operation is exact, checks lengths, leaves its operands    *)
(* alone and returns memory of its own: the caller may write into any      *)
(* vector of the store (poke) without another one changing.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NV, NPV, MaxLen, Neg, Pos, Depth, Bound   \* values: the elements of Pos and the negatives of those of Neg

Vals == Pos \cup {-x : x \in Neg}

VARIABLES v, pv, log
vars == <<v, pv, log>>
V == 1..NV
PVs == 1..NPV
Vectors == UNION {[1..l -> Vals] : l \in 0..MaxLen}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Map(q, F(_)) == [i \in DOMAIN q |-> F(q[i])]
Map2(p, q, F(_, _)) == [i \in DOMAIN p |-> F(p[i], q[i])]
Plus(x, y) == x + y
Minus(x, y) == x - y
Times(x, y) == x * y
Err == [err |-> TRUE]
Vec(q) == [vec |-> q]
Num(x) == [num |-> x]
Pt(x) == [pt |-> x]
Two(a, b) == [a |-> a, b |-> b]
Same(F(_, _), p, q) == IF Len(p) = Len(q) THEN Vec(Map2(p, q, F)) ELSE Err
Result(x) ==
  CASE x.o = "add" -> Same(Plus, v[x.a], v[x.b])
    [] x.o = "sub" -> Same(Minus, v[x.a], v[x.b])
    [] x.o = "had" -> Same(Times, v[x.a], v[x.b])
    [] x.o = "neg" -> Vec(Map(v[x.a], LAMBDA y : -y))
    [] x.o = "adds" -> Vec(Map(v[x.a], LAMBDA y : y + x.s))
    [] x.o = "subs" -> Vec(Map(v[x.a], LAMBDA y : y - x.s))
    [] x.o = "muls" -> Vec(Map(v[x.a], LAMBDA y : y * x.s))
    [] x.o = "ip" -> IF Len(v[x.a]) = Len(v[x.b]) THEN Num(Sum(Map2(v[x.a], v[x.b], Times))) ELSE Err
    [] x.o = "pows" -> Vec([i \in 1..x.n |-> Pow(x.s, i - 1)])
    [] x.o = "powsum" -> Num(Sum([i \in 1..x.n |-> Pow(x.s, i - 1)]))
    [] x.o = "from" -> Vec([i \in 1..x.n |-> x.s])
    [] x.o = "split" -> IF x.n < Len(v[x.a]) THEN Two(SubSeq(v[x.a], 1, x.n), SubSeq(v[x.a], x.n + 1, Len(v[x.a]))) ELSE Err
    [] x.o = "splitp" -> IF x.n < Len(pv[x.a]) THEN Two(SubSeq(pv[x.a], 1, x.n), SubSeq(pv[x.a], x.n + 1, Len(pv[x.a]))) ELSE Err
    [] x.o = "exp" -> IF Len(v[x.a]) = Len(pv[x.b]) /\ x.n * x.m <= Len(v[x.a]) THEN Pt(Sum(Map2(v[x.a], pv[x.b], Times))) ELSE Err
    [] OTHER -> [none |-> TRUE]
Small(q) == \A i \in DOMAIN q : q[i] <= Bound /\ q[i] >= -Bound
\* the caller keeps a vector result in d, provided that the numbers stay small
Do(x) ==
  LET r == Result(x) IN
  /\ v' = CASE x.o = "poke" -> [v EXCEPT ![x.a][x.i] = x.s]
            [] x.o = "set" -> [v EXCEPT ![x.a] = x.q]
            [] OTHER -> IF "vec" \in DOMAIN r /\ Small(r.vec) /\ Len(r.vec) <= MaxLen + 2 THEN [v EXCEPT ![x.d] = r.vec] ELSE v
  /\ pv' = IF x.o = "setp" THEN [pv EXCEPT ![x.a] = x.q] ELSE pv
  /\ log' = Append(log, x @@ [r |-> r, v |-> v', pv |-> pv'])
S == Vals
Calls(o) ==
  CASE o \in {"add", "sub", "had"} -> {[o |-> o, a |-> a, b |-> b, d |-> d] : a \in V, b \in V, d \in V}
    [] o = "neg" -> {[o |-> o, a |-> a, d |-> d] : a \in V, d \in V}
    [] o \in {"adds", "subs", "muls"} -> {[o |-> o, a |-> a, s |-> s, d |-> d] : a \in V, s \in S, d \in V}
    [] o = "ip" -> {[o |-> o, a |-> a, b |-> b] : a \in V, b \in V}
    [] o \in {"pows", "from"} -> {[o |-> o, s |-> s, n |-> n, d |-> d] : s \in {y \in S : y < 10 \/ o = "from"}, n \in 0..(MaxLen + 2), d \in V}
    [] o = "powsum" -> {[o |-> o, s |-> s, n |-> n] : s \in {y \in S : y < 10}, n \in 0..(MaxLen + 4)}
    [] o = "split" -> {[o |-> o, a |-> a, n |-> n] : a \in V, n \in 0..(MaxLen + 1)}
    [] o = "splitp" -> {[o |-> o, a |-> a, n |-> n] : a \in PVs, n \in 0..(MaxLen + 1)}
    [] o = "exp" -> {[o |-> o, a |-> a, b |-> b, n |-> n, m |-> m] : a \in V, b \in PVs, n \in 0..MaxLen, m \in 0..2}
    [] o = "poke" -> UNION {{[o |-> o, a |-> a, i |-> i, s |-> s] : i \in 1..Len(v[a]), s \in S} : a \in V}
    [] o = "set" -> {[o |-> o, a |-> a, q |-> q] : a \in V, q \in Vectors}
    [] o = "setp" -> {[o |-> o, a |-> a, q |-> q] : a \in PVs, q \in Vectors}
Kinds == {"add", "sub", "had", "neg", "adds", "subs", "muls", "ip", "pows", "powsum", "from", "split", "splitp", "exp", "poke"}
RandVec(l) == [i \in 1..l |-> RandomElement(Vals)]
Init == v = [i \in V |-> <<>>] /\ pv = [i \in PVs |-> <<>>] /\ log = <<>>
Next == Len(log) < Depth /\ \E o \in Kinds \cup {"set", "setp"} : \E x \in Calls(o) : Do(x)
Spec == Init /\ [][Next]_vars
\* lengths often agree, else little but errors would happen
NextRand == Len(log) < Depth /\ \E o \in {RandomElement(Kinds \cup {"set", "setp", "set2", "setp2", "exp2"})} :
   IF o \in {"set", "setp", "set2", "setp2"}
   THEN \E a \in {RandomElement(IF o \in {"set", "set2"} THEN V ELSE PVs)} : \E l \in {RandomElement(0..MaxLen)} : \E b \in {RandomElement({TRUE, FALSE})} :
          LET ln == IF b THEN l ELSE Len(v[1]) IN \E q \in {RandVec(ln)} : Do([o |-> IF o \in {"set", "set2"} THEN "set" ELSE "setp", a |-> a, q |-> q])
   ELSE LET C == Calls(IF o = "exp2" THEN "exp" ELSE o) IN IF C = {} THEN UNCHANGED vars ELSE \E x \in {RandomElement(C)} : Do(x)
SpecRand == Init /\ [][NextRand]_vars

Frame == [][LET l == log'[Len(log')] IN
             /\ \A i \in V : v'[i] # v[i] => i = (IF l.o \in {"poke", "set"} THEN l.a ELSE l.d)
             /\ \A i \in PVs : pv'[i] # pv[i] => l.o = "setp" /\ l.a = i]_vars
\* laws that tie the operations together, on all the vectors of the store
Laws == \A a \in V : \A b \in V : Len(v[a]) = Len(v[b]) =>
          /\ Same(Minus, v[a], v[b]) = Same(Plus, v[a], Map(v[b], LAMBDA y : -y))
          /\ Result([o |-> "ip", a |-> a, b |-> b]).num = Sum(Same(Times, v[a], v[b]).vec)
Geometric == \A s \in Vals : \A n \in 0..(MaxLen + 2) : Sum(Result([o |-> "pows", s |-> s, n |-> n]).vec) * (s - 1) = Pow(s, n) - 1
View == <<v, pv, Len(log)>>
Emit == Len(log) = Depth => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
