------------------------------ MODULE RangeEdits ------------------------------
(***************************************************************************)
(* What a range proof is valid for (C18). A and B are two honest proofs; a *)
(* proof is a record of symbolic components, and edits replace, move, add  *)
(* or remove components or take them from B. In the random oracle reading  *)
(* nothing but A and B themselves is accepted.                             *)
(*                                                                         *)
(* Names: "AV1" the first commitment of A, "AL2", "AA", "At" ...; "x3"     *)
(* something fresh; "id", "un", "0" and the prefixes "-", "2", "+" as in   *)
(* RingEdits.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Shapes,   \* 100 * values of A + values of B
          Far,      \* larger shapes, with fewer edits
          Rels, Depth

VARIABLES h, s, es
vars == <<h, s, es>>
LogM(m) == CASE m = 1 -> 6 [] m = 2 -> 7 [] m = 4 -> 8 [] m = 8 -> 9 [] m = 16 -> 10
Nm(w, f, i) == w \o f \o ToString(i)
Pts == {"A", "S", "T1", "T2"}
Scs == {"taux", "mu", "t", "a", "b"}
Mk(w, m) == [V |-> [i \in 1..m |-> Nm(w, "V", i)], L |-> [i \in 1..LogM(m) |-> Nm(w, "L", i)], R |-> [i \in 1..LogM(m) |-> Nm(w, "R", i)],
             p |-> [f \in Pts |-> w \o f], c |-> [f \in Scs |-> w \o f], ip |-> TRUE]
MA == h.shape \div 100
MB == h.shape % 100
A == Mk("A", MA)
B == Mk("B", MB)
Accept(x) == x = A \/ x = B

Fresh == "x" \o ToString(Len(es) + 1)
Pristine == {Nm(w, f, i) : w \in {"A", "B"}, f \in {"V", "L", "R"}, i \in 1..16} \cup {w \o f : w \in {"A", "B"}, f \in Pts \cup Scs}
PointOps == {"fresh", "id", "un", "neg", "dbl", "other"}
ScalarOps == {"fresh", "zero", "inc", "neg", "other"}
OpVal(op, v, o) == CASE op = "fresh" -> Fresh
                     [] op = "id" -> "id" [] op = "un" -> "un" [] op = "zero" -> "0"
                     [] op = "neg" -> IF v \in Pristine THEN "-" \o v ELSE Fresh
                     [] op = "dbl" -> IF v \in Pristine THEN "2" \o v ELSE Fresh
                     [] op = "inc" -> IF v \in Pristine THEN "+" \o v ELSE Fresh
                     [] op = "other" -> o
Lst == {"V", "L", "R"}
Dom(f) == 1..Len(s[f])
Few(f) == {i \in Dom(f) : i <= 3 \/ i = Len(s[f]) \/ i = Len(s[f]) \div 2}
Edits ==
       {[e |-> "pt", f |-> f, o |-> o] : f \in Pts, o \in PointOps}
  \cup {[e |-> "sc", f |-> f, o |-> o] : f \in Scs, o \in ScalarOps}
  \cup {[e |-> "swpt", f |-> f, g |-> g] : f \in Pts, g \in Pts}
  \cup {[e |-> "swsc", f |-> f, g |-> g] : f \in Scs, g \in Scs}
  \cup {[e |-> "bothpt", o |-> o] : o \in {"un", "id", "other"}}
  \cup {[e |-> "allsc", o |-> o] : o \in {"zero", "neg", "other"}}
  \cup UNION {{[e |-> "el", f |-> f, i |-> i, o |-> o] : i \in Dom(f), o \in PointOps} : f \in Lst}
  \cup UNION {{[e |-> "sw", f |-> f, i |-> i, j |-> j] : i \in Few(f), j \in Few(f)} : f \in Lst}
  \cup UNION {{[e |-> "cp", f |-> f, i |-> i, j |-> j] : i \in Few(f), j \in Few(f)} : f \in Lst}
  \cup UNION {{[e |-> "drop", f |-> f, i |-> i] : i \in Few(f)} : f \in Lst}
  \cup {[e |-> "swlr", i |-> i] : i \in {i \in Dom("L") : i <= Len(s.R)}}
  \cup UNION {{[e |-> "add", f |-> f, o |-> o] : o \in {"fresh", "id", "un", "dup"}} : f \in Lst}
  \cup UNION {{[e |-> x, f |-> f] : x \in {"none", "twice", "rev", "half", "otherlist"}} : f \in Lst}
  \cup {[e |-> x] : x \in {"noip", "otherip", "othermain", "swaplr", "droplr", "addlr", "firstlr", "zeros", "empty", "vrot"}}
  \cup {[e |-> "vpt", i |-> i, f |-> f] : i \in Few("V"), f \in Pts}
Min(a, b) == IF a < b THEN a ELSE b
Drp(q, i) == [j \in 1..(Len(q) - 1) |-> IF j < i THEN q[j] ELSE q[j + 1]]
Swp(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Head1(q) == IF q = <<>> THEN q ELSE SubSeq(q, 1, 1)
Apply(x) ==
  CASE x.e = "pt" -> [s EXCEPT !.p[x.f] = OpVal(x.o, @, "B" \o x.f)]
    [] x.e = "sc" -> [s EXCEPT !.c[x.f] = OpVal(x.o, @, "B" \o x.f)]
    [] x.e = "swpt" -> [s EXCEPT !.p[x.f] = s.p[x.g], !.p[x.g] = s.p[x.f]]
    [] x.e = "swsc" -> [s EXCEPT !.c[x.f] = s.c[x.g], !.c[x.g] = s.c[x.f]]
    [] x.e = "bothpt" -> [s EXCEPT !.p = [f \in Pts |-> OpVal(x.o, s.p[f], "B" \o f)]]
    [] x.e = "allsc" -> [s EXCEPT !.c = [f \in Scs |-> OpVal(x.o, s.c[f], "B" \o f)]]
    [] x.e = "el" -> [s EXCEPT ![x.f][x.i] = OpVal(x.o, @, Nm("B", x.f, Min(x.i, Len(B[x.f]))))]
    [] x.e = "sw" -> [s EXCEPT ![x.f] = Swp(@, x.i, x.j)]
    [] x.e = "cp" -> [s EXCEPT ![x.f][x.i] = s[x.f][x.j]]
    [] x.e = "drop" -> [s EXCEPT ![x.f] = Drp(@, x.i)]
    [] x.e = "swlr" -> [s EXCEPT !.L[x.i] = s.R[x.i], !.R[x.i] = s.L[x.i]]
    [] x.e = "add" -> [s EXCEPT ![x.f] = Append(@, IF x.o = "dup" THEN (IF @ = <<>> THEN Fresh ELSE @[Len(@)]) ELSE OpVal(x.o, "", ""))]
    [] x.e = "none" -> [s EXCEPT ![x.f] = <<>>]
    [] x.e = "twice" -> [s EXCEPT ![x.f] = @ \o @]
    [] x.e = "rev" -> [s EXCEPT ![x.f] = Rev(@)]
    [] x.e = "half" -> [s EXCEPT ![x.f] = SubSeq(@, 1, Len(@) \div 2)]
    [] x.e = "otherlist" -> [s EXCEPT ![x.f] = B[x.f]]
    [] x.e = "noip" -> [s EXCEPT !.ip = FALSE]
    [] x.e = "otherip" -> [s EXCEPT !.L = B.L, !.R = B.R, !.c.a = B.c.a, !.c.b = B.c.b]
    [] x.e = "othermain" -> [s EXCEPT !.V = B.V, !.p = B.p, !.c.t = B.c.t, !.c.taux = B.c.taux, !.c.mu = B.c.mu]
    [] x.e = "swaplr" -> [s EXCEPT !.L = s.R, !.R = s.L]
    [] x.e = "droplr" -> IF s.L = <<>> \/ s.R = <<>> THEN s ELSE [s EXCEPT !.L = Drp(@, Len(@)), !.R = Drp(@, Len(@))]
    [] x.e = "firstlr" -> IF s.L = <<>> \/ s.R = <<>> THEN s ELSE [s EXCEPT !.L = Drp(@, 1), !.R = Drp(@, 1)]
    [] x.e = "addlr" -> [s EXCEPT !.L = Append(@, "id"), !.R = Append(@, "id")]
    [] x.e = "zeros" -> [s EXCEPT !.V = [i \in DOMAIN s.V |-> "id"], !.L = [i \in DOMAIN s.L |-> "id"], !.R = [i \in DOMAIN s.R |-> "id"], !.p = [f \in Pts |-> "id"], !.c = [f \in Scs |-> "0"]]
    [] x.e = "empty" -> [s EXCEPT !.V = <<>>, !.L = <<>>, !.R = <<>>]
    [] x.e = "vrot" -> [s EXCEPT !.V = IF @ = <<>> THEN @ ELSE Append(Drp(@, 1), @[1])]
    [] x.e = "vpt" -> [s EXCEPT !.V[x.i] = s.p[x.f], !.p[x.f] = s.V[x.i]]
Feasible(x) == Len(x.V) <= 34 /\ Len(x.L) <= 40 /\ Len(x.R) <= 40

\* the edits of the larger shapes: one kind of value, at the ends and in the middle of the lists
Ends(f) == {i \in Dom(f) : i = 1 \/ i \in {Len(s[f]), Len(s[f]) - 1, Len(s[f]) \div 2}}
Sparse(x) == CASE x.e \in {"pt", "sc", "add"} -> x.o = "fresh"
               [] x.e = "el" -> x.o = "fresh" /\ x.i \in Ends(x.f)
               [] x.e \in {"sw", "cp"} -> x.i = 1 /\ x.j = Len(s[x.f])
               [] x.e = "drop" -> x.i = Len(s[x.f])
               [] x.e = "swlr" -> x.i \in Ends("L")
               [] x.e \in {"swpt", "swsc", "vpt"} -> FALSE
               [] OTHER -> TRUE
Init == h \in [shape : Shapes \cup Far, rel : Rels] /\ s = A /\ es = <<>>
Do(x) == LET n == Apply(x) IN Feasible(n) /\ s' = n /\ h' = h /\ es' = Append(es, x)
Next == Len(es) < Depth /\ \E x \in Edits : (h.shape \in Far => Sparse(x)) /\ Do(x)
Spec == Init /\ [][Next]_vars
Kinds == {"pt", "sc", "swpt", "swsc", "el", "el2", "sw", "cp", "drop", "swlr", "add", "list", "one", "vpt", "all"}
Pick(k) == CASE k \in {"pt", "sc", "swpt", "swsc", "swlr", "add", "drop", "cp", "sw", "vpt"} -> {x \in Edits : x.e = k}
             [] k \in {"el", "el2"} -> {x \in Edits : x.e = "el"}
             [] k = "list" -> {x \in Edits : x.e \in {"none", "twice", "rev", "half", "otherlist"}}
             [] k = "all" -> {x \in Edits : x.e \in {"bothpt", "allsc"}}
             [] OTHER -> {x \in Edits : x.e \in {"noip", "otherip", "othermain", "swaplr", "droplr", "addlr", "firstlr", "zeros", "empty", "vrot"}}
NextRand == /\ Len(es) < Depth
            /\ \E k \in {RandomElement(Kinds)} : LET S == Pick(k) IN IF S = {} THEN UNCHANGED vars ELSE
               \E x \in {RandomElement(S)} : IF Feasible(Apply(x)) THEN Do(x) ELSE UNCHANGED vars
SpecRand == Init /\ [][NextRand]_vars

\* no single edit keeps a proof valid unless it changes nothing
OneEdit == Len(es) = 1 /\ Accept(s) => s = A
\* whatever is accepted carries the commitments of one of the two proofs
Binding == Accept(s) => s.V = A.V \/ s.V = B.V
Out == [ma |-> MA, mb |-> MB, rel |-> h.rel, es |-> es, s |-> s, ok |-> Accept(s)]
Emit == Len(es) > 0 => PrintT("@@" \o ToJson(Out))
EmitLast == Len(es) = Depth => PrintT("@@" \o ToJson(Out))
=============================================================================
