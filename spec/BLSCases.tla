------------------------------ MODULE BLSCases ------------------------------
(***************************************************************************)
(* Exhaustive small-scope enumeration of single verifications (C01, C02):  *)
(* every list of aggregated keys against every signature that is at most   *)
(* one edit away from the matching sum, and every batch likewise, plus     *)
(* long lists with one edit at each position. One state per case; the      *)
(* expected answer is the one of BLS.tla's formal sums.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NK, NM, MaxKeys, LongN, FarN, Part   \* FarN: lists too long for an edit at every position

VARIABLE c
B == INSTANCE BLS WITH NP <- NK, NA <- 1, NS <- 1, NU <- 1, MaxTerms <- 99, Depth <- 1, InitKind <- "empty", Kinds <- {},
                       pk <- <<>>, ak <- <<>>, sg <- <<>>, us <- <<>>, hist <- <<>>

K == 1..NK
M == 1..NM
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Drop(s, i)    == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
Repl(s, i, x) == [s EXCEPT ![i] = x]

\* terms [w, k, m]: signature of secret k on m, weighted with H1(pk_w)
Wt(t) == [w |-> B!Unit(t.w), k |-> t.k, m |-> t.m]
Honest(ks, m) == [i \in DOMAIN ks |-> [w |-> ks[i], k |-> ks[i], m |-> m]]
Edits(ts, m) ==
  {ts} \cup {Drop(ts, i) : i \in IF Len(ts) > 1 THEN DOMAIN ts ELSE {}}
       \cup {Append(ts, ts[i]) : i \in DOMAIN ts}
       \cup {Repl(ts, i, [w |-> k, k |-> k, m |-> m]) : i \in DOMAIN ts, k \in K}
       \cup {Repl(ts, i, [ts[i] EXCEPT !.w = k]) : i \in DOMAIN ts, k \in K}
       \cup {Repl(ts, i, [ts[i] EXCEPT !.k = k]) : i \in DOMAIN ts, k \in K}
       \cup {Repl(ts, i, [ts[i] EXCEPT !.m = n]) : i \in DOMAIN ts, n \in M}
       \cup {[i \in DOMAIN ts |-> [ts[i] EXCEPT !.m = n]] : n \in M}
       \cup {[i \in DOMAIN ts |-> ts[Len(ts) + 1 - i]]}

Multi(ks, ts, m) == [t |-> "multi", ks |-> ks, ts |-> ts, m |-> m,
                     ok |-> B!VerifyOK([i \in DOMAIN ks |-> B!Unit(ks[i])], m, [i \in DOMAIN ts |-> Wt(ts[i])])]
MultiAll == UNION {{Multi(ks, ts, 1) : ts \in Edits(Honest(ks, 1), 1)} : ks \in Seqs(K, 1, MaxKeys)}

\* batches: keys ks, messages ms, terms [k, m]; v: over aggregated keys, plain keys, compressed, compressed with repetitions
Min(a, b) == IF a < b THEN a ELSE b
ZipU(ks, ms) == [i \in 1..Min(Len(ks), Len(ms)) |-> [k |-> ks[i], m |-> ms[i]]]
EditsU(ts) ==
  {ts} \cup {Drop(ts, i) : i \in IF Len(ts) > 1 THEN DOMAIN ts ELSE {}}
       \cup {Append(ts, ts[i]) : i \in DOMAIN ts}
       \cup {Repl(ts, i, [ts[i] EXCEPT !.k = k]) : i \in DOMAIN ts, k \in K}
       \cup {Repl(ts, i, [ts[i] EXCEPT !.m = n]) : i \in DOMAIN ts, n \in M}
       \cup {[i \in DOMAIN ts |-> ts[Len(ts) + 1 - i]]}
       \cup (IF ts = <<>> THEN {<<[k |-> 1, m |-> 1]>>} ELSE {})
\* "apk2": the i-th aggregated key is that of signers ks[i] and its successor, a term stands for both signatures
Succ(k) == (k % NK) + 1
Both(t) == <<Wt([w |-> t.k, k |-> t.k, m |-> t.m]), Wt([w |-> Succ(t.k), k |-> Succ(t.k), m |-> t.m])>>
Batch(v, ks, ms, ts) ==
  [t |-> "batch", v |-> v, ks |-> ks, ms |-> ms, ts |-> ts,
   ok |-> IF v = "apk2"
          THEN B!BatchOK([i \in DOMAIN ks |-> <<B!Unit(ks[i]), B!Unit(Succ(ks[i]))>>], ms, B!Cat([i \in DOMAIN ts |-> Both(ts[i])]))
          ELSE IF v = "apk"
          THEN B!BatchOK([i \in DOMAIN ks |-> <<B!Unit(ks[i])>>], ms, [i \in DOMAIN ts |-> Wt([w |-> ts[i].k, k |-> ts[i].k, m |-> ts[i].m])])
          ELSE B!BatchUOK([i \in DOMAIN ks |-> B!Unit(ks[i])], ms, ts, v = "rep")]
Variants == {"apk", "apk2", "plain", "comp", "rep"}
Nonempty(S) == {ts \in S : ts # <<>>}
BatchAll(v) == UNION {{Batch(v, p[1], p[2], ts) : ts \in Nonempty(EditsU(ZipU(p[1], p[2])))} : p \in Seqs(K, 0, MaxKeys) \X Seqs(M, 0, MaxKeys)}

\* long lists
LKs(n) == [i \in 1..n |-> ((i - 1) % NK) + 1]
LMs(n) == [i \in 1..n |-> i]
Pos(n) == IF n \in FarN THEN {1, n \div 2, n - 1, n} ELSE 1..n
LongMulti(n) == UNION {
   {Multi(LKs(n), ts, 1) : ts \in {Honest(LKs(n), 1), Drop(Honest(LKs(n), 1), i), Repl(Honest(LKs(n), 1), i, [w |-> LKs(n)[i], k |-> LKs(n)[i], m |-> 2])}} : i \in Pos(n)}
LongBatch(v, n) == UNION {
   {Batch(v, LKs(n), LMs(n), ts) : ts \in {ZipU(LKs(n), LMs(n)), Drop(ZipU(LKs(n), LMs(n)), i), Repl(ZipU(LKs(n), LMs(n)), i, [k |-> (LKs(n)[i] % NK) + 1, m |-> i])}}
   \cup {Batch(v, LKs(n), Repl(LMs(n), n, i), ZipU(LKs(n), Repl(LMs(n), n, i)))}        \* message n repeats message i
   \cup {Batch(v, LKs(n), Drop(LMs(n), i), ZipU(LKs(n), Drop(LMs(n), i)))}              \* one message less
   \cup {Batch(v, Drop(LKs(n), i), LMs(n), ZipU(Drop(LKs(n), i), LMs(n)))} : i \in Pos(n)} \* one key less
Cases ==
  CASE Part = "multi" -> MultiAll \cup UNION {LongMulti(n) : n \in LongN \cup FarN}
    [] Part = "batch" -> UNION {BatchAll(v) : v \in Variants} \cup UNION {LongBatch(v, n) : n \in LongN \cup FarN, v \in Variants}

Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

\* the model's own sanity: acceptance needs as many terms as keys, and (batches) equally long lists of distinct messages
Sane == c.ok => /\ Len(c.ts) = Len(c.ks)
                /\ c.t = "multi" => \A i \in DOMAIN c.ts : c.ts[i].w = c.ts[i].k /\ c.ts[i].m = c.m
                /\ c.t = "batch" => Len(c.ks) = Len(c.ms) /\ (c.v # "rep" => \A i, j \in DOMAIN c.ms : i # j => c.ms[i] # c.ms[j])
Emit == PrintT("@@" \o ToJson(c))
=============================================================================
