----------------------------- MODULE MerkleSizes -----------------------------
(***************************************************************************)
(* Trees of every size up to a bound: the root, and what verification says *)
(* when the payload at one position (0: none) is replaced or exchanged     *)
(* with its neighbour, or when a recorded hash of the tree is changed: the *)
(* merkle root, or that of the inner node at one level above a position.   *)
(* One state per case.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, Far, Full, Patterns,
          Deep  \* sizes at which every recorded hash above some leaves is changed
VARIABLE c

Leaf(v) == ToString(v) \o "."
Node(a, b) == "(" \o a \o b \o ")"
Value(pat, n, i) == CASE pat = "distinct" -> i
                      [] pat = "same"     -> 1
                      [] pat = "alt"      -> (i % 2) + 1
                      [] pat = "lastdup"  -> IF i = n THEN n - 1 ELSE i
RECURSIVE RootOf(_)
RootOf(hs) ==
  IF Len(hs) = 1 THEN hs[1]
  ELSE LET n == Len(hs) IN
       RootOf([i \in 1..((n + 1) \div 2) |-> Node(hs[2 * i - 1], IF 2 * i > n THEN hs[n] ELSE hs[2 * i])])
Vals(pat, n) == [i \in 1..n |-> Value(pat, n, i)]
Root(vs) == LET hs == [i \in DOMAIN vs |-> Leaf(vs[i])] IN IF Len(hs) = 1 THEN Node(hs[1], hs[1]) ELSE RootOf(hs)
Swap(vs, i) == IF i = Len(vs) THEN vs ELSE [vs EXCEPT ![i] = vs[i + 1], ![i + 1] = vs[i]]
After(vs, op, i) == CASE op = "none" -> vs
                      [] op = "set"  -> [vs EXCEPT ![i] = 99999]
                      [] op = "swap" -> Swap(vs, i)
\* the tree was built over vs; the payloads now have the values of `now`
Case(pat, n, op, i) ==
  LET vs == Vals(pat, n)
      now == After(vs, op, i)
  IN [n |-> n, pat |-> pat, op |-> op, i |-> i, vs |-> vs, now |-> now,
      root |-> IF op = "none" THEN Root(vs) ELSE "",
      \* same values in the same places <=> same root (checked by Collision below for small n)
      ok |-> now = vs]
\* the recorded hash `up` levels above leaf i is changed: whose content still verifies?
Height(n) == LET RECURSIVE H(_)
                 H(k) == IF k <= 1 THEN 0 ELSE 1 + H((k + 1) \div 2)
             IN IF n = 1 THEN 1 ELSE H(n)
RECURSIVE Over(_, _)
Over(i, up) == IF up = 0 THEN i ELSE Over((i + 1) \div 2, up - 1)
\* the recorded hashes of the ancestors of leaf j are compared with what those of their grandchildren (two levels
\* down, or the payloads) give
Reads(j, i, up, h) == \/ Over(j, up) = Over(i, up)
                      \/ up + 2 <= h /\ Over(j, up + 2) = Over(i, up + 2)
Tamper(pat, n, up, i) ==
  LET vs == Vals(pat, n)
      h  == Height(n)
      js == {1, 2, i, IF i < n THEN i + 1 ELSE i - 1, n \div 2, n} \cap 1..n
  IN [n |-> n, pat |-> pat, op |-> IF up > h THEN "troot" ELSE "tnode", i |-> i, up |-> up, vs |-> vs, now |-> vs, root |-> "",
      ok |-> up <= h,
      members |-> {[j |-> j, ok |-> up <= h /\ ~Reads(j, i, up, h)] : j \in js}]
Tampers(n) == IF n <= 9 THEN {<<up, i>> : up \in 1..(Height(n) + 1), i \in 1..n}
              ELSE IF n \notin Deep THEN {} ELSE {<<up, i>> : up \in 1..(Height(n) + 1), i \in {1, n \div 2, n}}
Pos(n) == IF n <= Full THEN 1..n ELSE {1, 2, n \div 2, n - 1, n}
Init == \E pat \in Patterns, n \in (1..MaxN) \cup Far :
          c \in {Case(pat, n, "none", 0)} \cup (IF pat = "distinct" \/ n < 12 THEN {Case(pat, n, op, i) : op \in {"set", "swap"}, i \in Pos(n)} ELSE {})
               \cup (IF pat = "distinct" THEN {Tamper(pat, n, t[1], t[2]) : t \in Tampers(n)} ELSE {})
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
\* the root tells the edited list from the original one, except for what the duplication hides:
\* lists of different length are compared elsewhere
Collision == c.n <= 40 /\ c.op \in {"set", "swap"} => (Root(c.now) = Root(c.vs)) <=> c.ok
Emit == PrintT("@@" \o ToJson(c))
=============================================================================
