------------------------------ MODULE RingEdits ------------------------------
(***************************************************************************)
(* What a ring signature is valid for (C10, C11, C16), for the multi-key   *)
(* scheme (KP keys per member, key images for the first NI of them) and    *)
(* the basic one (KP = NI = 1).                                            *)
(*                                                                         *)
(* A and B are two honest signatures. A signature is a record of symbolic  *)
(* components; edits replace, move, add or remove components or take them  *)
(* from B. In the random oracle reading the verifier accepts exactly A and *)
(* B themselves, up to a rotation of the whole ring by which the signature *)
(* is read from another starting point (with the challenge belonging to    *)
(* it), and to going round the whole ring several times.                   *)
(*                                                                         *)
(* Component names: "Ak12" key 2 of member 1 of A, "Ar12" its response,    *)
(* "Am" message, "Ai1" key image; "x3" something fresh; "id" the identity,  *)
(* "un" an uninitialised point, "0" the zero scalar; "-", "2" and "+"      *)
(* prefixed to a name negate, double and increment it.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Shapes, \* 100 * members + 10 * keys per member + key images
          Far,    \* likewise: rings too long for an edit at every position
          Rels, Depth, Scheme

VARIABLES h, s, es
vars == <<h, s, es>>

N == h.shape \div 100
KP == (h.shape \div 10) % 10
NI == h.shape % 10
Rel == h.rel

P == 1..N
Q == 1..KP
Nm(w, t, i, k) == w \o t \o ToString(i) \o "_" \o ToString(k)
Mk(w, wk, wm, wi) ==
  [m |-> wm \o "m", c |-> [w |-> w, j |-> 1],
   ks |-> [i \in P |-> [k \in Q |-> Nm(wk, "k", i, k)]],
   rs |-> [i \in P |-> [k \in Q |-> Nm(w, "r", i, k)]],
   im |-> [k \in 1..NI |-> wi \o "i" \o ToString(k)]]
A == Mk("A", "A", "A", "A")
\* the other signature: unrelated; by another signer on the same message; by the same signer over the same ring
B == CASE Rel = "other"    -> Mk("B", "B", "B", "B")
       [] Rel = "samemsg"  -> Mk("B", "B", "A", "B")
       [] Rel = "samering" -> Mk("B", "A", "B", "A")

Shift(q, d) == [i \in DOMAIN q |-> q[((i - 1 + d) % Len(q)) + 1]]
Turned(x, j) == [x EXCEPT !.ks = Shift(x.ks, j - 1), !.rs = Shift(x.rs, j - 1), !.c.j = j]
\* ... and the ring may be gone round several times
Times(q, t) == [i \in 1..(t * N) |-> q[((i - 1) % N) + 1]]
Repeated(x, t) == [x EXCEPT !.ks = Times(x.ks, t), !.rs = Times(x.rs, t)]
\* (the challenge tells which of them and where it was turned, the length how often: no need to try all)
Accept(x) == x.c.j \in P /\ Len(x.ks) % N = 0 /\ Len(x.ks) \in {N, 2 * N, 3 * N}
             /\ x = Repeated(Turned(IF x.c.w = "A" THEN A ELSE B, x.c.j), Len(x.ks) \div N)

---------------------------------------------------------------------------
Fresh(n) == "x" \o ToString(n)
Pristine == {Nm(w, t, i, k) : w \in {"A", "B"}, t \in {"k", "r"}, i \in P, k \in Q} \cup {w \o "i" \o ToString(k) : w \in {"A", "B"}, k \in 1..NI}
NR == Len(s.rs)
NKs == Len(s.ks)
At(n) == IF n <= 15 THEN 1..n ELSE {1, 2, n \div 2, n - 1, n}
Drop(q, i) == [j \in 1..(Len(q) - 1) |-> IF j < i THEN q[j] ELSE q[j + 1]]
Swp(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
IdxK == {<<i, k>> \in At(NKs) \X Q : k <= Len(s.ks[i])}
IdxR == {<<i, k>> \in At(NR) \X Q : k <= Len(s.rs[i])}
Both == At(IF NR < NKs THEN NR ELSE NKs)
Widths(q) == {Len(q[i]) : i \in DOMAIN q}

PointOps == {"fresh", "id", "un", "neg", "dbl", "other"}
ScalarOps == {"fresh", "zero", "inc", "neg", "other"}
OpVal(op, v, o) == CASE op = "fresh" -> Fresh(Len(es) + 1)
                     [] op = "id"    -> "id"
                     [] op = "un"    -> "un"
                     [] op = "zero"  -> "0"
                     [] op = "neg"   -> IF v \in Pristine THEN "-" \o v ELSE Fresh(Len(es) + 1)
                     [] op = "dbl"   -> IF v \in Pristine THEN "2" \o v ELSE Fresh(Len(es) + 1)
                     [] op = "inc"   -> IF v \in Pristine THEN "+" \o v ELSE Fresh(Len(es) + 1)
                     [] op = "other" -> o
Edits ==
       {[e |-> "msg", f |-> f] : f \in {"flip", "trunc", "ext", "empty", "zero", "nl", "nul", "lead", "case", "rev", "twice", "other"}}
  \cup {[e |-> "c", f |-> f] : f \in {"fresh", "zero", "inc", "neg", "other"}}
  \cup {[e |-> "key", f |-> f, i |-> x[1], k |-> x[2]] : f \in PointOps, x \in IdxK}
  \cup {[e |-> "resp", f |-> f, i |-> x[1], k |-> x[2]] : f \in ScalarOps, x \in IdxR}
  \cup {[e |-> "copykey", i |-> i, j |-> j] : i \in At(NKs), j \in At(NKs)}
  \cup {[e |-> "copyresp", i |-> i, j |-> j] : i \in At(NR), j \in At(NR)}
  \cup {[e |-> "swapkeys", i |-> i, j |-> j] : i \in At(NKs), j \in At(NKs)}
  \cup {[e |-> "swapresp", i |-> i, j |-> j] : i \in At(NR), j \in At(NR)}
  \cup {[e |-> "swapboth", i |-> i, j |-> j] : i \in Both, j \in Both}
  \cup {[e |-> "flipkeys", i |-> i] : i \in {x \in At(NKs) : Len(s.ks[x]) = 2}}
  \cup {[e |-> "flipresp", i |-> i] : i \in {x \in At(NR) : Len(s.rs[x]) = 2}}
  \cup {[e |-> "dropm", i |-> i] : i \in Both}
  \cup {[e |-> "dupm", i |-> i] : i \in Both}
  \cup {[e |-> x, i |-> i] : x \in {"insm", "insid", "insnew"}, i \in Both}
  \cup {[e |-> "dropk", i |-> i] : i \in At(NKs)}
  \cup {[e |-> "dropr", i |-> i] : i \in At(NR)}
  \cup {[e |-> "dupk", i |-> i] : i \in At(NKs)}
  \cup {[e |-> "dupr", i |-> i] : i \in At(NR)}
  \cup {[e |-> "shortk", i |-> i] : i \in {x \in At(NKs) : Len(s.ks[x]) > 0}}
  \cup {[e |-> "longk", i |-> i] : i \in At(NKs)}
  \cup {[e |-> "again"] : x \in {y \in {1} : NKs = NR /\ NKs <= 2}}
  \cup {[e |-> x] : x \in {"shortall", "shortresp", "longresp", "nokeys", "noresp", "otherkeys", "otherresp", "nothing"}}
  \cup {[e |-> "img", f |-> f, k |-> k] : f \in PointOps, k \in 1..Len(s.im)}
  \cup {[e |-> "dropimg", k |-> k] : k \in 1..Len(s.im)}
  \cup {[e |-> x] : x \in {"noimg", "dupimg", "addimg", "swapimg", "flipimg"}}
  \cup {[e |-> x, d |-> d] : x \in {"rot", "rotnoc", "rotkeys", "rotresp"}, d \in At(N - 1)}

Ins(q, i, v) == [j \in 1..(Len(q) + 1) |-> IF j <= i THEN q[j] ELSE IF j = i + 1 THEN v ELSE q[j - 1]]
All(q, v) == [k \in DOMAIN q |-> v]
Tl(q) == [j \in 1..(Len(q) - 1) |-> q[j]]
Apply(x) ==
  CASE x.e = "msg" -> [s EXCEPT !.m = IF x.f = "other" THEN B.m ELSE x.f \o "|" \o ToString(Len(es) + 1) \o "|" \o s.m]
    [] x.e = "c" -> [s EXCEPT !.c = IF x.f = "other" THEN B.c ELSE [w |-> x.f \o ToString(Len(es) + 1), j |-> 0]]
    [] x.e = "key" -> [s EXCEPT !.ks[x.i][x.k] = OpVal(x.f, s.ks[x.i][x.k], Nm(IF Rel = "samering" THEN "A" ELSE "B", "k", IF x.i > N THEN 1 ELSE x.i, x.k))]
    [] x.e = "resp" -> [s EXCEPT !.rs[x.i][x.k] = OpVal(x.f, s.rs[x.i][x.k], Nm("B", "r", IF x.i > N THEN 1 ELSE x.i, x.k))]
    [] x.e = "copykey" -> [s EXCEPT !.ks[x.i] = s.ks[x.j]]
    [] x.e = "copyresp" -> [s EXCEPT !.rs[x.i] = s.rs[x.j]]
    [] x.e = "swapkeys" -> [s EXCEPT !.ks = Swp(s.ks, x.i, x.j)]
    [] x.e = "swapresp" -> [s EXCEPT !.rs = Swp(s.rs, x.i, x.j)]
    [] x.e = "swapboth" -> [s EXCEPT !.ks = Swp(s.ks, x.i, x.j), !.rs = Swp(s.rs, x.i, x.j)]
    [] x.e = "flipkeys" -> [s EXCEPT !.ks[x.i] = <<s.ks[x.i][2], s.ks[x.i][1]>>]
    [] x.e = "flipresp" -> [s EXCEPT !.rs[x.i] = <<s.rs[x.i][2], s.rs[x.i][1]>>]
    [] x.e = "dropm" -> [s EXCEPT !.ks = Drop(s.ks, x.i), !.rs = Drop(s.rs, x.i)]
    [] x.e = "dupm" -> [s EXCEPT !.ks = Append(s.ks, s.ks[x.i]), !.rs = Append(s.rs, s.rs[x.i])]
    [] x.e = "insm" -> [s EXCEPT !.ks = Ins(s.ks, x.i, s.ks[x.i]), !.rs = Ins(s.rs, x.i, s.rs[x.i])]
    [] x.e = "insid" -> [s EXCEPT !.ks = Ins(s.ks, x.i, All(s.ks[x.i], "id")), !.rs = Ins(s.rs, x.i, All(s.rs[x.i], "0"))]
    [] x.e = "insnew" -> [s EXCEPT !.ks = Ins(s.ks, x.i, All(s.ks[x.i], Fresh(Len(es) + 1))), !.rs = Ins(s.rs, x.i, All(s.rs[x.i], Fresh(Len(es) + 1)))]
    [] x.e = "again" -> [s EXCEPT !.ks = s.ks \o s.ks, !.rs = s.rs \o s.rs]
    [] x.e = "dropk" -> [s EXCEPT !.ks = Drop(s.ks, x.i)]
    [] x.e = "dropr" -> [s EXCEPT !.rs = Drop(s.rs, x.i)]
    [] x.e = "dupk" -> [s EXCEPT !.ks = Append(s.ks, s.ks[x.i])]
    [] x.e = "dupr" -> [s EXCEPT !.rs = Append(s.rs, s.rs[x.i])]
    [] x.e = "shortk" -> [s EXCEPT !.ks[x.i] = Tl(s.ks[x.i])]
    [] x.e = "longk" -> [s EXCEPT !.ks[x.i] = Append(s.ks[x.i], Fresh(Len(es) + 1))]
    [] x.e = "shortall" -> [s EXCEPT !.ks = [i \in DOMAIN s.ks |-> IF Len(s.ks[i]) = 0 THEN s.ks[i] ELSE Tl(s.ks[i])], !.rs = [i \in DOMAIN s.rs |-> IF Len(s.rs[i]) = 0 THEN s.rs[i] ELSE Tl(s.rs[i])]]
    [] x.e = "shortresp" -> [s EXCEPT !.rs = [i \in DOMAIN s.rs |-> IF Len(s.rs[i]) = 0 THEN s.rs[i] ELSE Tl(s.rs[i])]]
    [] x.e = "longresp" -> [s EXCEPT !.rs = [i \in DOMAIN s.rs |-> Append(s.rs[i], Fresh(Len(es) + 1))]]
    [] x.e = "nokeys" -> [s EXCEPT !.ks = <<>>]
    [] x.e = "noresp" -> [s EXCEPT !.rs = <<>>]
    [] x.e = "otherkeys" -> [s EXCEPT !.ks = B.ks]
    [] x.e = "otherresp" -> [s EXCEPT !.rs = B.rs]
    [] x.e = "nothing" -> [s EXCEPT !.ks = <<>>, !.rs = <<>>, !.im = <<>>]
    [] x.e = "img" -> [s EXCEPT !.im[x.k] = OpVal(x.f, s.im[x.k], B.im[IF x.k > NI THEN 1 ELSE x.k])]
    [] x.e = "dropimg" -> [s EXCEPT !.im = Drop(s.im, x.k)]
    [] x.e = "noimg" -> [s EXCEPT !.im = <<>>]
    [] x.e = "dupimg" -> [s EXCEPT !.im = s.im \o s.im]
    [] x.e = "addimg" -> [s EXCEPT !.im = Append(s.im, Fresh(Len(es) + 1))]
    [] x.e = "swapimg" -> IF s.im = <<>> \/ NKs = 0 THEN s ELSE IF s.ks[1] = <<>> THEN s ELSE [s EXCEPT !.im[1] = s.ks[1][1]]
    [] x.e = "flipimg" -> [s EXCEPT !.im = IF Len(s.im) < 2 THEN s.im ELSE Swp(s.im, 1, 2)]
    [] x.e = "rot" -> [s EXCEPT !.ks = IF NKs = 0 THEN s.ks ELSE Shift(s.ks, x.d), !.rs = IF NR = 0 THEN s.rs ELSE Shift(s.rs, x.d),
                                !.c = IF s.c.j = 0 THEN s.c ELSE [s.c EXCEPT !.j = ((s.c.j - 1 + x.d) % N) + 1]]
    [] x.e = "rotnoc" -> [s EXCEPT !.ks = IF NKs = 0 THEN s.ks ELSE Shift(s.ks, x.d), !.rs = IF NR = 0 THEN s.rs ELSE Shift(s.rs, x.d)]
    [] x.e = "rotkeys" -> [s EXCEPT !.ks = IF NKs = 0 THEN s.ks ELSE Shift(s.ks, x.d)]
    [] x.e = "rotresp" -> [s EXCEPT !.rs = IF NR = 0 THEN s.rs ELSE Shift(s.rs, x.d)]

\* the responses of the multi-key scheme are only ever set through its decoder, which yields rectangular matrices;
\* key images are a list there and a single point in the basic scheme
Feasible(x) == /\ Cardinality(Widths(x.rs)) <= 1
               /\ Scheme = "blsag" => /\ Len(x.im) = 1
                                      /\ \A i \in DOMAIN x.ks : Len(x.ks[i]) = 1
                                      /\ \A i \in DOMAIN x.rs : Len(x.rs[i]) = 1
               /\ Scheme = "mlsag" => \A i \in DOMAIN x.rs : Len(x.rs[i]) > 0
               /\ Len(x.im) <= 4
               /\ Len(x.ks) <= N + 2 /\ Len(x.rs) <= N + 2

Init == h \in ([shape : Shapes, rel : Rels] \cup [shape : Far, rel : {"other"}]) /\ s = A /\ es = <<>>
Do(x) == LET n == Apply(x) IN Feasible(n) /\ s' = n /\ h' = h /\ es' = Append(es, x)
Next == Len(es) < Depth /\ \E x \in Edits : Do(x)
Spec == Init /\ [][Next]_vars

NextRand == /\ Len(es) < Depth
            /\ \E x \in {RandomElement(Edits)} : IF Feasible(Apply(x)) THEN Do(x) ELSE UNCHANGED vars
SpecRand == Init /\ [][NextRand]_vars

\* no single edit keeps a signature valid, unless it changes nothing or turns the whole ring
OneEdit == Len(es) = 1 /\ Accept(s) => s = A \/ es[1].e = "rot" \/ es[1].e = "again" \/ (N = 1 /\ es[1].e \in {"dupm", "insm"})
\* whatever is accepted carries the message, keys and image of one of the two signatures
Binding == Accept(s) => \E X \in {A, B} : /\ s.m = X.m /\ s.im = X.im
                                          /\ {s.ks[i] : i \in DOMAIN s.ks} = {X.ks[i] : i \in P}
View == <<h, s>>
Out == [scheme |-> Scheme, n |-> N, kp |-> KP, ni |-> NI, rel |-> Rel, es |-> es, s |-> s, ok |-> Accept(s)]
Emit == Len(es) > 0 => PrintT("@@" \o ToJson(Out))
EmitLast == Len(es) = Depth => PrintT("@@" \o ToJson(Out))
=============================================================================
