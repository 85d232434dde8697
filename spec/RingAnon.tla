------------------------------ MODULE RingAnon ------------------------------
(* Who signed? A ring signature over the toy field F_Q: challenges are linked by an arbitrary function H (the message, the   *)
(* ring and the key image being fixed), c[i+1] = H[r[i] + c[i] * x[i]], and the ring closes. A signer at position j spends    *)
(* one coin alpha and one coin r[i] per other member. Part "coins": for every H and all keys, the map from coins to           *)
(* signatures is a bijection onto the valid ones for EVERY position, so equal coins for every signer give the same            *)
(* distribution: nothing in the signature tells j. It also gives the inverse the harness uses to recover the coins of the     *)
(* real signatures: they have to be independent and uniform. Part "place": which random placements of the signer's key make   *)
(* its position uniform. Part "cases": what the harness measures on the library.                                              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Part, Q, N, Signer, Shuffle, Sizes, Big, Far

F == 0..(Q - 1)
Pos == 0..(N - 1)
VARIABLES h, x, case, done
vars == <<h, x, case, done>>

---------------------------------------------------------------------------
\* the ring, from the signer's side
Next1(i) == (i + 1) % N
\* one link: the challenge after position i
Around(hh, xx, r, i, c) == [c EXCEPT ![Next1(i)] = hh[(r[i] + c[i] * xx[i]) % Q]]
RECURSIVE Walk(_, _, _, _, _, _)
Walk(hh, xx, r, j, i, c) == IF i = j THEN c ELSE Walk(hh, xx, r, j, Next1(i), Around(hh, xx, r, i, c))

\* the coins a signer really uses: alpha = coin[j], the others are the responses
Alpha(j, coin) == CASE Signer = "alpha0" -> 0
                    [] Signer = "shared" -> coin[Next1(j)]
                    [] OTHER -> coin[j]
Resp(j, coin, i) == CASE Signer = "same" -> coin[Next1(j)]
                      [] Signer = "zero" -> 0
                      [] OTHER -> coin[i]
Sign(hh, xx, j, coin) ==
  LET r0 == [i \in Pos |-> IF i = j THEN 0 ELSE Resp(j, coin, i)]
      al == Alpha(j, coin)
      c0 == [[i \in Pos |-> 0] EXCEPT ![Next1(j)] = hh[al]]
      c == IF N = 1 THEN c0 ELSE Walk(hh, xx, r0, j, Next1(j), c0)
      rj == (al - c[j] * xx[j]) % Q
  IN [c |-> c[0], r |-> [r0 EXCEPT ![j] = (rj + Q) % Q]]

\* the verifier's side
RECURSIVE Chain(_, _, _, _)
Chain(hh, xx, s, i) == IF i = 0 THEN s.c ELSE LET c == Chain(hh, xx, s, i - 1) IN hh[(s.r[i - 1] + c * xx[i - 1]) % Q]
Valid(hh, xx) == {s \in [c : F, r : [Pos -> F]] : Chain(hh, xx, s, N) = s.c}
\* the inverse: the coins of a signature, given who signed
CoinsOf(hh, xx, s, j) == [i \in Pos |-> IF i = j THEN (s.r[j] + Chain(hh, xx, s, j) * xx[j]) % Q ELSE s.r[i]]

AllCoins == [Pos -> F]
Anonymous == Part = "coins" => \A j \in Pos :
   LET im == {Sign(h, x, j, k) : k \in AllCoins}
   IN /\ im = Valid(h, x)
      /\ Cardinality(im) = Cardinality(AllCoins)
Recover == Part = "coins" => \A j \in Pos : \A k \in AllCoins : CoinsOf(h, x, Sign(h, x, j, k), j) = k

---------------------------------------------------------------------------
\* placements: sequences of draws and where the signer, at first last in the list, ends up
Swap(p, a, b) == [p EXCEPT ![a] = p[b], ![b] = p[a]]
Draws(n) == CASE Shuffle = "fy" -> {d \in [1..(n - 1) -> 0..(n - 1)] : \A i \in 1..(n - 1) : d[i] <= i}
              [] Shuffle = "sattolo" -> {d \in [1..(n - 1) -> 0..(n - 1)] : \A i \in 1..(n - 1) : d[i] < i}
              [] Shuffle = "insert" -> [{1} -> 0..(n - 1)]
              [] Shuffle = "insertshort" -> [{1} -> 0..(IF n = 1 THEN 0 ELSE n - 2)]
RECURSIVE Shuf(_, _, _)
Shuf(p, d, i) == IF i = 0 THEN p ELSE Shuf(Swap(p, i, d[i]), d, i - 1)
At(n, d) == IF Shuffle \in {"insert", "insertshort"} THEN d[1]
            ELSE CHOOSE i \in 0..(n - 1) : Shuf([k \in 0..(n - 1) |-> k], d, n - 1)[i] = n - 1
Uniform == (Part = "place" /\ done) => \A n \in 1..N : \A p, q \in 0..(n - 1) :
   Cardinality({d \in Draws(n) : At(n, d) = p}) = Cardinality({d \in Draws(n) : At(n, d) = q})

---------------------------------------------------------------------------
Cases == [kind : {"position", "coins"}, scheme : {"mlsag", "mlsagreuse", "blsag"}, n : Sizes]
         \cup [kind : {"position"}, scheme : {"mlsag", "blsag"}, n : Big]
         \cup [kind : {"coins"}, scheme : {"mlsag", "mlsagreuse", "blsag"}, n : Big \cup Far]
         \cup [kind : {"spread"}, scheme : {"blsag"}, n : Far] \cup [kind : {"spread"}, scheme : {"mlsag"}, n : {n \in Far : n < 200}]
Streams == [kind : {"stream"}, scheme : {"mlsag", "blsag"}, n : Sizes]
Init == /\ done = FALSE
        /\ IF Part = "coins" THEN h \in [F -> F] /\ x \in [Pos -> 1..(Q - 1)] /\ case = [kind |-> "none"]
           ELSE h = <<>> /\ x = <<>> /\ CASE Part = "cases" -> case \in Cases [] Part = "streams" -> case \in Streams [] OTHER -> case = [kind |-> "none"]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<h, x, case>>
Spec == Init /\ [][Next]_vars
Emit == (case.kind # "none" /\ done) => PrintT("@@" \o ToJson(case))
=============================================================================
