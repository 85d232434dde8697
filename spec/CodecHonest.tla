----------------------------- MODULE CodecHonest -----------------------------
(***************************************************************************)
(* Values made by the library, as they are or bent out of shape, given to  *)
(* the encoders (C14, C20). A bent value has no encoding; keys left out of *)
(* the encoding do not matter.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, MaxN,
          LongF, LongN,   \* formats with long lists, and their lengths
          FarN            \* lengths far away, in a few combinations only
VARIABLE c
Bends(f) == IF f = "mlsag" THEN {"", "fewer", "more", "nokeys", "wide", "narrow", "hollow", "cut", "swapk"} ELSE {"", "noip", "lr", "rl", "fewv", "morev", "nov", "swapv"}
\* a long list, and another one that differs from it at position `at' only (0: nowhere)
Far(f) == f \in {"commits", "resp", "keys", "ip"}
FarInit == \E f \in {g \in LongF : Far(g)} : \E n \in FarN : \E at \in {0, n} : c = [f |-> "long", g |-> f, n |-> n, at |-> at, bend |-> "", keys |-> TRUE, eq |-> (at = 0)]
LongInit == \E f \in LongF : \E n \in LongN : \E at \in {0, 1, n \div 2, n - 1, n} : at >= 0 /\ at <= n /\ c = [f |-> "long", g |-> f, n |-> n, at |-> at, bend |-> "", keys |-> TRUE, eq |-> (at = 0)]
Init == LongInit \/ FarInit \/ \E f \in Kinds : \E n \in 1..MaxN : \E ks \in BOOLEAN : \E b \in Bends(f) : c = [f |-> f, n |-> n, keys |-> ks, bend |-> b]
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
\* out of order or of another number of commitments: still an encoding, of another value
Encodable == c.bend \in {"", "swapk", "fewv", "morev", "nov", "swapv"} \/ (c.f = "mlsag" /\ ~c.keys)
Emit == PrintT("@@" \o ToJson(c @@ [ok |-> Encodable]))
=============================================================================
