------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* The merkle tree library: payloads with a current value (or failing), a  *)
(* tree built from them, the exported operations, and everything that can  *)
(* be tampered with in between.                                            *)
(*                                                                         *)
(* Hashes are symbolic terms written as strings: "3." is the hash of value *)
(* 3, "(ab)" the hash of the concatenation of a and b, "x7." a hash that   *)
(* somebody put in by hand. Terms are equal iff the strings are.           *)
(*                                                                         *)
(* A tree is [lv, root]: lv[1] is the sequence of leaves, lv[l] the nodes  *)
(* of level l, the last level being the single root node. Leaves are       *)
(* [p, h, dup] (payload, recorded hash), nodes [l, r, h] with children as  *)
(* indices into the level below. root is the recorded merkle root.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NPay,     \* payloads
          NV,       \* values a payload may have
          MaxLen,   \* longest list of payloads
          Depth,
          Kinds

VARIABLES val, bad, tree, hist
vars == <<val, bad, tree, hist>>

Pay == 1..NPay
NoTree == [lv |-> <<>>, root |-> ""]
Live == tree # NoTree

Leaf(v) == ToString(v) \o "."
Node(a, b) == "(" \o a \o b \o ")"
Forged(n) == "x" \o ToString(n) \o "."

---------------------------------------------------------------------------
(* building *)
LeafLevel(ps) ==
  LET ls == [i \in DOMAIN ps |-> [p |-> ps[i], h |-> Leaf(val[ps[i]]), dup |-> FALSE]]
  IN IF Len(ls) % 2 = 1 THEN Append(ls, [ls[Len(ls)] EXCEPT !.dup = TRUE]) ELSE ls

Pairs(below) ==
  LET n == Len(below)
      R(i) == IF 2 * i > n THEN 2 * i - 1 ELSE 2 * i
  IN [i \in 1..((n + 1) \div 2) |-> [l |-> 2 * i - 1, r |-> R(i), h |-> Node(below[2 * i - 1].h, below[R(i)].h)]]
RECURSIVE Up(_)
Up(lv) == IF Len(lv) > 1 /\ Len(lv[Len(lv)]) = 1 THEN lv ELSE Up(Append(lv, Pairs(lv[Len(lv)])))
Build(ps) == LET lv == Up(<<LeafLevel(ps)>>) IN [lv |-> lv, root |-> lv[Len(lv)][1].h]

\* C06, stated independently of the construction above
RECURSIVE RootOf(_)
RootOf(hs) ==
  IF Len(hs) = 1 THEN hs[1]
  ELSE LET n == Len(hs) IN
       RootOf([i \in 1..((n + 1) \div 2) |-> Node(hs[2 * i - 1], IF 2 * i > n THEN hs[n] ELSE hs[2 * i])])
RootSpec(ps) == LET hs == [i \in DOMAIN ps |-> Leaf(val[ps[i]])]
                IN IF Len(hs) = 1 THEN Node(hs[1], hs[1]) ELSE RootOf(hs)

---------------------------------------------------------------------------
(* verification *)
RECURSIVE Recompute(_, _), Reach(_, _)
Recompute(l, i) == IF l = 1 THEN Leaf(val[tree.lv[1][i].p])
                   ELSE Node(Recompute(l - 1, tree.lv[l][i].l), Recompute(l - 1, tree.lv[l][i].r))
Reach(l, i) == IF l = 1 THEN {i} ELSE Reach(l - 1, tree.lv[l][i].l) \cup Reach(l - 1, tree.lv[l][i].r)
Top == Len(tree.lv)
\* answers: "true", "false", "err"; errs: the payloads whose failure may be reported
VTreeErrs == {tree.lv[1][i].p : i \in Reach(Top, 1)} \cap bad
VTree == IF VTreeErrs # {} THEN "err" ELSE IF Recompute(Top, 1) = tree.root THEN "true" ELSE "false"

\* the path of leaf i: recorded hashes of the nodes above agree with what lies below them
RECURSIVE PathOK(_, _)
Calc(l, i) == IF l = 1 THEN Leaf(val[tree.lv[1][i].p]) ELSE Node(tree.lv[l - 1][tree.lv[l][i].l].h, tree.lv[l - 1][tree.lv[l][i].r].h)
PathOK(l, i) == \* i is the node of level l on the path
  IF l > Top THEN TRUE
  ELSE /\ Node(Calc(l - 1, tree.lv[l][i].l), Calc(l - 1, tree.lv[l][i].r)) = tree.lv[l][i].h
       /\ PathOK(l + 1, (i + 1) \div 2)
Intact(i) == PathOK(2, (i + 1) \div 2) /\ tree.lv[Top][1].h = tree.root
Matches(v) == {i \in DOMAIN tree.lv[1] : Leaf(val[tree.lv[1][i].p]) = Leaf(v)}
Kids(i) == LET n == tree.lv[2][(i + 1) \div 2] IN {n.l, n.r}
LBad == {i \in DOMAIN tree.lv[1] : tree.lv[1][i].p \in bad}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* "any": the statement of the property leaves it open
VContent(v, vbad) ==
  IF vbad THEN "err"
  ELSE LET ms == Matches(v) \ LBad IN
       IF ms = {} THEN (IF LBad # {} THEN "err" ELSE "false")
       ELSE LET m == MinOf(ms) IN
            IF \E b \in LBad : b < m \/ b \in Kids(m) THEN "err"
            ELSE IF LBad # {} THEN "any"
            ELSE IF \A i \in ms : Intact(i) THEN "true"
            ELSE IF \A i \in ms : ~Intact(i) THEN "false"
            ELSE "any"

---------------------------------------------------------------------------
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Inner == {<<l, i>> : l \in 2..Top, i \in 1..Len(tree.lv[2])}
\* nodes that are not paired with themselves
Nodes == {n \in Inner : n[2] <= Len(tree.lv[n[1]]) /\ (n[1] = Top \/ n[2] % 2 = 0 \/ n[2] < Len(tree.lv[n[1]]))}

Args(kd) ==
  CASE kd = "new"      -> {[ps |-> ps] : ps \in Seqs(Pay, 0, MaxLen)}
    [] kd = "using"    -> IF Live THEN {[ps |-> ps] : ps \in Seqs(Pay, 0, MaxLen)} ELSE {}
    [] kd = "rebuild"  -> IF Live THEN {[z |-> 0]} ELSE {}
    [] kd = "set"      -> {[p |-> p, v |-> v] : p \in Pay, v \in 1..NV}
    [] kd = "fail"     -> {[p |-> p, on |-> on] : p \in Pay, on \in BOOLEAN}
    [] kd = "troot"    -> IF Live THEN {[f |-> f] : f \in {"flip", "nil", "short", "long", "other"}} ELSE {}
    [] kd = "tleaf"    -> IF Live THEN {[i |-> i] : i \in DOMAIN tree.lv[1]} ELSE {}
    [] kd = "tnode"    -> IF Live THEN {[l |-> n[1], i |-> n[2]] : n \in Nodes} ELSE {}
    [] kd = "swapkids" -> IF Live THEN {[l |-> n[1], i |-> n[2]] : n \in Nodes} ELSE {}
    [] kd = "dupkid"   -> IF Live THEN {[l |-> n[1], i |-> n[2]] : n \in Nodes} ELSE {}
    [] kd = "swapdata" -> IF Live THEN {[i |-> i, j |-> j] : i \in DOMAIN tree.lv[1], j \in DOMAIN tree.lv[1]} ELSE {}
    [] kd = "vtree"    -> IF Live THEN {[z |-> 0]} ELSE {}
    [] kd = "vcontent" -> IF Live THEN {[v |-> v, b |-> b] : v \in 1..(NV + 1), b \in BOOLEAN} ELSE {}

Can(ps) == ps # <<>> /\ \A i \in DOMAIN ps : ps[i] \notin bad
Errs(ps) == {ps[i] : i \in DOMAIN ps} \cap bad
Originals == LET ls == SelectSeq(tree.lv[1], LAMBDA x : ~x.dup) IN [i \in DOMAIN ls |-> ls[i].p]

R(a, es, t) == [ans |-> a, errs |-> es, tree |-> t, val |-> val, bad |-> bad]
Eff(kd, x) ==
  CASE kd \in {"new", "using"} -> IF Can(x.ps) THEN R("true", {}, Build(x.ps)) ELSE R("err", Errs(x.ps), tree)
    [] kd = "rebuild"  -> IF Can(Originals) THEN R("true", {}, Build(Originals)) ELSE R("err", Errs(Originals), tree)
    [] kd = "set"      -> [R("true", {}, tree) EXCEPT !.val = [val EXCEPT ![x.p] = x.v]]
    [] kd = "fail"     -> [R("true", {}, tree) EXCEPT !.bad = IF x.on THEN bad \cup {x.p} ELSE bad \ {x.p}]
    [] kd = "troot"    -> R("true", {}, [tree EXCEPT !.root = Forged(Len(hist) + 1)])
    [] kd = "tleaf"    -> R("true", {}, [tree EXCEPT !.lv[1][x.i].h = Forged(Len(hist) + 1)])
    [] kd = "tnode"    -> R("true", {}, [tree EXCEPT !.lv[x.l][x.i].h = Forged(Len(hist) + 1)])
    [] kd = "swapkids" -> R("true", {}, [tree EXCEPT !.lv[x.l][x.i] = [@ EXCEPT !.l = tree.lv[x.l][x.i].r, !.r = tree.lv[x.l][x.i].l]])
    [] kd = "dupkid"   -> R("true", {}, [tree EXCEPT !.lv[x.l][x.i].l = tree.lv[x.l][x.i].r])
    [] kd = "swapdata" -> R("true", {}, [tree EXCEPT !.lv[1][x.i].p = tree.lv[1][x.j].p, !.lv[1][x.j].p = tree.lv[1][x.i].p])
    [] kd = "vtree"    -> R(VTree, VTreeErrs, tree)
    [] kd = "vcontent" -> R(VContent(x.v, x.b), bad, tree)

Call(kd, x) ==
  LET e == Eff(kd, x) IN
  /\ val' = e.val /\ bad' = e.bad /\ tree' = e.tree
  /\ hist' = Append(hist, [kd |-> kd, x |-> x, ans |-> e.ans, errs |-> e.errs, tree |-> e.tree])

Init == /\ val = [p \in Pay |-> ((p - 1) % NV) + 1]
        /\ bad = {}
        /\ tree = NoTree
        /\ hist = <<>>
Next == Len(hist) < Depth /\ \E kd \in Kinds : \E x \in Args(kd) : Call(kd, x)
Spec == Init /\ [][Next]_vars

\* generator: one random call per step; a tree is built first, reads are frequent
RE(S) == RandomElement(S)
RSeq == LET n == RE(0..MaxLen) IN [i \in 1..n |-> RE(Pay)]
\* lists like the one the tree was built from: as long as its leaves, one payload exchanged, grown, cut
RLike(k) ==
  LET cur == Originals
      lfs == [i \in DOMAIN tree.lv[1] |-> tree.lv[1][i].p]
      odd == IF bad = {} THEN Pay ELSE bad
  IN CASE k = 1 -> [lfs EXCEPT ![RE(DOMAIN lfs)] = RE(odd)]
       [] k = 2 -> [i \in DOMAIN lfs |-> RE(Pay)]
       [] k = 3 -> [cur EXCEPT ![RE(DOMAIN cur)] = RE(odd)]
       [] k = 4 -> Append(cur, RE(odd))
       [] k = 5 -> SubSeq(cur, 1, RE(0..Len(cur)))
       [] k = 6 -> lfs
RArgs(kd) == IF kd = "using" /\ Live THEN {[ps |-> IF k > 6 THEN RSeq ELSE RLike(k)] : k \in {RE(1..10)}}
             ELSE IF kd \in {"new", "using"} THEN {[ps |-> RSeq]}
             ELSE IF kd = "fail" THEN {[p |-> RE(IF on \/ bad = {} THEN Pay ELSE bad), on |-> on] : on \in {RE({1, 2, 3}) # 1}}
             ELSE LET S == Args(kd) IN IF S = {} THEN {} ELSE {RE(S)}
Tampers == {"set", "fail", "troot", "tleaf", "tnode", "swapkids", "dupkid", "swapdata"}
Pick == IF ~Live THEN "new"
        ELSE IF RE(1..2) = 1 THEN RE(({"vtree", "vcontent"} \cap Kinds) \cup {"vtree"})
        ELSE RE(Kinds)
NextRand == /\ Len(hist) < Depth
            /\ \E kd \in {Pick} : \E A \in {RArgs(kd)} :
                 IF A = {} THEN UNCHANGED vars ELSE \E x \in A : Call(kd, x)
SpecRand == Init /\ [][NextRand]_vars

---------------------------------------------------------------------------
(* properties of the model *)
Last == hist[Len(hist)]
\* C06: building and rebuilding gives the specified root, and the leaves in order plus the duplicate
RootRight == Len(hist) > 0 /\ Last.kd \in {"new", "using", "rebuild"} /\ Last.ans = "true" =>
  LET n == Cardinality({i \in DOMAIN tree.lv[1] : ~tree.lv[1][i].dup})
      ps == [i \in 1..n |-> tree.lv[1][i].p]
  IN /\ tree.root = RootSpec(ps)
     /\ Len(tree.lv[1]) = n + (n % 2)
     /\ \A i \in DOMAIN tree.lv[1] : tree.lv[1][i].dup <=> i = n + 1
     /\ tree.lv[Top][1].h = tree.root
\* C07: a fresh tree verifies, each member is found and nothing else
FreshOK == Len(hist) > 0 /\ Last.kd \in {"new", "using", "rebuild"} /\ Last.ans = "true" =>
  /\ VTree = "true"
  /\ \A v \in 1..NV : VContent(v, FALSE) = IF \E i \in DOMAIN tree.lv[1] : val[tree.lv[1][i].p] = v THEN "true" ELSE "false"
\* C07: a verified tree's recorded root is the root of what its payloads hash to
Sound == Live /\ VTree = "true" => tree.root = Recompute(Top, 1)
\* C08: an operation that fails leaves the tree alone
Kept == [][hist'[Len(hist')].ans = "err" => tree' = tree]_vars
\* the tree itself is only changed by building and by tampering
Frame == [][hist'[Len(hist')].kd \in {"vtree", "vcontent", "set", "fail"} => tree' = tree]_vars

View == <<val, bad, tree, Len(hist)>>
Emit == (Len(hist) = Depth) => PrintT("@@" \o ToJson([h |-> hist, val0 |-> [p \in Pay |-> ((p - 1) % NV) + 1]]))
=============================================================================
