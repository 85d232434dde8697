------------------------------- MODULE IPACases -------------------------------
(***************************************************************************)
(* The inner-product argument on honest inputs and on inputs of the wrong  *)
(* size (C21, C26): kinds of vectors, generators, factors and of the base  *)
(* point of the inner product, for every size up to 2^MaxLog.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLog, Full, Far

VARIABLES x
Pow(k) == 2 ^ k
Vecs == {"rand", "zero", "one", "minus", "first", "last", "half", "bits"}
Facs == {"one", "powers", "rand", "zero", "minus"}
Gens == {"chain", "same", "ident", "mixed"}
Qs == {"rand", "ident", "gen"}
Case(n, a, b, f, g, q) == [n |-> n, a |-> a, b |-> b, f |-> f, g |-> g, q |-> q, e |-> "", d |-> 0]
Sizes == {Pow(k) : k \in 0..MaxLog}
Small == {n \in Sizes : n <= Full}
Honest ==
       {Case(n, "rand", "rand", f, "chain", "rand") : n \in Sizes, f \in {"one", "powers", "rand"}}
  \cup {Case(n, "rand", "rand", "powers", "chain", "rand") : n \in Far}
  \cup {Case(n, a, b, "powers", "chain", "rand") : n \in Small, a \in Vecs, b \in Vecs}
  \cup {Case(n, a, "rand", f, g, q) : n \in Small, a \in {"rand", "bits"}, f \in Facs, g \in Gens, q \in Qs}
(* wrong sizes: one of the lists is longer or shorter, or all have a size that is no power of two *)
Wrong == {[Case(n, "rand", "rand", "rand", "chain", "rand") EXCEPT !.e = e, !.d = d] : n \in {1, 2, 4, 8}, e \in {"G", "H", "a", "b", "f"}, d \in {1, 2, 3, 4}}
  \cup {[Case(n, "rand", "rand", "rand", "chain", "rand") EXCEPT !.e = "all"] : n \in {0, 3, 5, 6, 7, 9, 12, 15, 17, 24, 31, 33, 63, 100, 127, 129, 192, 255, 257, 1023, 1025}}
IsPow(n) == \E k \in 0..16 : Pow(k) = n
Ok(c) == c.e = "" /\ IsPow(c.n)
Init == x \in Honest \cup Wrong
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
Emit == PrintT("@@" \o ToJson(x @@ [ok |-> Ok(x)]))
=============================================================================
