------------------------------- MODULE BLSGen -------------------------------
(***************************************************************************)
(* Generation of BLS key pairs (C01). A source of randomness is a stream   *)
(* of bytes that may dry up with an error; the zero source stands for the  *)
(* system's. A generation either fails (the source dried up before it had  *)
(* given enough) or yields a pair that is a function of what the source    *)
(* gave: two sources at the same place of the same stream give the same    *)
(* pair however the bytes are portioned, any others give different pairs,  *)
(* and every pair is a pair: what its secret signs, its key verifies, and  *)
(* no other.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Streams, Portions, MaxGen

VARIABLES at,    \* stream -> number of pairs drawn since it was last wound back
          out    \* the calls and what they gave

System == 0
Init == at = [s \in Streams |-> 0] /\ out = <<>>

\* a generation from a stream that holds enough; portion: bytes a read yields at most (0: all it asks for)
Draw(s, p) == /\ out' = Append(out, [src |-> s, portion |-> p, short |-> 99, rewind |-> FALSE, ok |-> TRUE, pair |-> <<s, at[s] + 1>>])
              /\ at' = [at EXCEPT ![s] = @ + 1]
Rewound(s, p) == /\ out' = Append(out, [src |-> s, portion |-> p, short |-> 99, rewind |-> TRUE, ok |-> TRUE, pair |-> <<s, 1>>])
                 /\ at' = [at EXCEPT ![s] = 1]
\* from a source that fails after k bytes, too few for a key
Dry(s, p, k) == /\ out' = Append(out, [src |-> s, portion |-> p, short |-> k, rewind |-> TRUE, ok |-> FALSE, pair |-> <<s, 0>>])
                /\ at' = [at EXCEPT ![s] = 0]
\* from the system: never the same again
Fresh == /\ out' = Append(out, [src |-> System, portion |-> 0, short |-> 99, rewind |-> FALSE, ok |-> TRUE, pair |-> <<System, Len(out) + 1>>])
         /\ UNCHANGED at

Next == /\ Len(out) < MaxGen
        /\ \/ Fresh
           \/ \E s \in Streams, p \in Portions : Draw(s, p) \/ Rewound(s, p)
           \/ \E s \in Streams, p \in Portions, k \in {0, 1, 15} : Dry(s, p, k)
Spec == Init /\ [][Next]_<<at, out>>

\* no key without randomness; distinct generations of one stream never coincide
Sane == /\ \A i \in DOMAIN out : out[i].ok <=> out[i].short = 99
        /\ \A i, j \in DOMAIN out : (i # j /\ out[i].src = System) => out[i].pair # out[j].pair
Emit == Len(out) = MaxGen => PrintT("@@" \o ToJson([g |-> out]))
=============================================================================
