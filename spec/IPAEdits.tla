------------------------------- MODULE IPAEdits -------------------------------
(***************************************************************************)
(* What an inner-product proof is valid for (C21): the commitment P, the   *)
(* generators G and H, the factors f of H, the point Q and the proof (L,   *)
(* R, a, b). Edits of a generic honest instance A, also with parts of      *)
(* another instance B, are accepted only if they leave it as it was.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ns, Depth
VARIABLES n, s, es
vars == <<n, s, es>>
Log(k) == CASE k = 1 -> 0 [] k = 2 -> 1 [] k = 4 -> 2 [] k = 8 -> 3 [] k = 16 -> 4 [] k = 32 -> 5 [] k = 64 -> 6
Nm(w, f, i) == w \o f \o ToString(i)
Pl == {"G", "H", "L", "R"}
Lists == Pl \cup {"f"}
LenOf(f) == IF f \in {"L", "R"} THEN Log(n) ELSE n
Mk(w) == [l |-> [f \in Lists |-> [i \in 1..LenOf(f) |-> Nm(w, f, i)]], p |-> [f \in {"P", "Q"} |-> w \o f], c |-> [f \in {"a", "b"} |-> w \o f]]
A == Mk("A")
B == Mk("B")
Accept(x) == x = A \/ x = B
Fresh == "x" \o ToString(Len(es) + 1)
Pristine == {Nm(w, f, i) : w \in {"A", "B"}, f \in Lists, i \in 1..64} \cup {w \o f : w \in {"A", "B"}, f \in {"P", "Q", "a", "b"}}
PointOps == {"fresh", "id", "un", "neg", "dbl", "other"}
ScalarOps == {"fresh", "zero", "inc", "neg", "other"}
OpVal(op, v, o) == CASE op = "fresh" -> Fresh
                     [] op = "id" -> "id" [] op = "un" -> "un" [] op = "zero" -> "0"
                     [] op = "neg" -> IF v \in Pristine THEN "-" \o v ELSE Fresh
                     [] op = "dbl" -> IF v \in Pristine THEN "2" \o v ELSE Fresh
                     [] op = "inc" -> IF v \in Pristine THEN "+" \o v ELSE Fresh
                     [] op = "other" -> o
Ops(f) == IF f = "f" THEN ScalarOps ELSE PointOps
Dom(f) == 1..Len(s.l[f])
Few(f) == {i \in Dom(f) : i <= 2 \/ i = Len(s.l[f]) \/ i = Len(s.l[f]) \div 2}
Edits ==
       {[e |-> "pt", f |-> f, o |-> o] : f \in {"P", "Q"}, o \in PointOps}
  \cup {[e |-> "sc", f |-> f, o |-> o] : f \in {"a", "b"}, o \in ScalarOps}
  \cup {[e |-> "swab"], [e |-> "swpq"], [e |-> "swgh"], [e |-> "swaplr"], [e |-> "droplr"], [e |-> "addlr"], [e |-> "otherproof"], [e |-> "otherstmt"]}
  \cup UNION {{[e |-> "el", f |-> f, i |-> i, o |-> o] : i \in Dom(f), o \in Ops(f)} : f \in Lists}
  \cup UNION {{[e |-> "sw", f |-> f, i |-> i, j |-> j] : i \in Few(f), j \in Few(f)} : f \in Lists}
  \cup UNION {{[e |-> "cp", f |-> f, i |-> i, j |-> j] : i \in Few(f), j \in Few(f)} : f \in Lists}
  \cup UNION {{[e |-> "drop", f |-> f, i |-> i] : i \in Few(f)} : f \in Lists}
  \cup {[e |-> "add", f |-> f, o |-> o] : f \in Pl, o \in {"fresh", "id", "un"}}
  \cup {[e |-> "add", f |-> "f", o |-> o] : o \in {"fresh", "zero"}}
  \cup {[e |-> x, f |-> f] : x \in {"none", "twice", "half", "otherlist"}, f \in Lists}
  \cup {[e |-> "shift", f |-> f, i |-> i] : f \in {"L", "R"}, i \in {i \in 1..Log(n) : s = A}}
  \cup {[e |-> "swlr", i |-> i] : i \in {i \in Dom("L") : i <= Len(s.l.R)}}
Drp(q, i) == [j \in 1..(Len(q) - 1) |-> IF j < i THEN q[j] ELSE q[j + 1]]
Swp(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
Min(a, b) == IF a < b THEN a ELSE b
Apply(x) ==
  CASE x.e = "pt" -> [s EXCEPT !.p[x.f] = OpVal(x.o, @, "B" \o x.f)]
    [] x.e = "sc" -> [s EXCEPT !.c[x.f] = OpVal(x.o, @, "B" \o x.f)]
    [] x.e = "swab" -> [s EXCEPT !.c.a = s.c.b, !.c.b = s.c.a]
    [] x.e = "swpq" -> [s EXCEPT !.p.P = s.p.Q, !.p.Q = s.p.P]
    [] x.e = "swgh" -> [s EXCEPT !.l.G = s.l.H, !.l.H = s.l.G]
    [] x.e = "swaplr" -> [s EXCEPT !.l.L = s.l.R, !.l.R = s.l.L]
    [] x.e = "droplr" -> IF s.l.L = <<>> \/ s.l.R = <<>> THEN s ELSE [s EXCEPT !.l.L = Drp(@, Len(@)), !.l.R = Drp(@, Len(@))]
    [] x.e = "addlr" -> [s EXCEPT !.l.L = Append(@, "id"), !.l.R = Append(@, "id")]
    [] x.e = "otherproof" -> [s EXCEPT !.l.L = B.l.L, !.l.R = B.l.R, !.c = B.c]
    [] x.e = "otherstmt" -> [s EXCEPT !.l.G = B.l.G, !.l.H = B.l.H, !.l.f = B.l.f, !.p = B.p]
    [] x.e = "el" -> [s EXCEPT !.l[x.f][x.i] = OpVal(x.o, @, IF B.l[x.f] = <<>> THEN Fresh ELSE Nm("B", x.f, Min(x.i, Len(B.l[x.f]))))]
    [] x.e = "sw" -> [s EXCEPT !.l[x.f] = Swp(@, x.i, x.j)]
    [] x.e = "cp" -> [s EXCEPT !.l[x.f][x.i] = s.l[x.f][x.j]]
    [] x.e = "drop" -> [s EXCEPT !.l[x.f] = Drp(@, x.i)]
    [] x.e = "add" -> [s EXCEPT !.l[x.f] = Append(@, OpVal(x.o, "", ""))]
    [] x.e = "none" -> [s EXCEPT !.l[x.f] = <<>>]
    [] x.e = "twice" -> [s EXCEPT !.l[x.f] = @ \o @]
    [] x.e = "half" -> [s EXCEPT !.l[x.f] = SubSeq(@, 1, Len(@) \div 2)]
    [] x.e = "otherlist" -> [s EXCEPT !.l[x.f] = B.l[x.f]]
    \* a message and the commitment move together, so as to agree under the challenges of the proof as it was
    [] x.e = "shift" -> [s EXCEPT !.l[x.f][x.i] = "~" \o @, !.p.P = "~" \o Nm("A", x.f, x.i)]
    [] x.e = "swlr" -> [s EXCEPT !.l.L[x.i] = s.l.R[x.i], !.l.R[x.i] = s.l.L[x.i]]
Feasible(x) == \A f \in Lists : Len(x.l[f]) <= 2 * n + 2
Init == n \in Ns /\ s = A /\ es = <<>>
Do(x) == LET m == Apply(x) IN Feasible(m) /\ s' = m /\ n' = n /\ es' = Append(es, x)
Next == Len(es) < Depth /\ \E x \in Edits : Do(x)
Spec == Init /\ [][Next]_vars
NextRand == Len(es) < Depth /\ \E k \in {RandomElement({y.e : y \in Edits})} : \E x \in {RandomElement({y \in Edits : y.e = k})} : IF Feasible(Apply(x)) THEN Do(x) ELSE UNCHANGED vars
SpecRand == Init /\ [][NextRand]_vars
OneEdit == Len(es) = 1 /\ Accept(s) => s = A
Emit == Len(es) > 0 => PrintT("@@" \o ToJson([n |-> n, es |-> es, s |-> s, ok |-> Accept(s)]))
EmitLast == Len(es) = Depth => PrintT("@@" \o ToJson([n |-> n, es |-> es, s |-> s, ok |-> Accept(s)]))
=============================================================================
