------------------------------ MODULE RangeForge ------------------------------
(***************************************************************************)
(* The range proof as a game between a prover without a witness and the    *)
(* Fiat-Shamir transcript (C18, C26).                                      *)
(*                                                                         *)
(* The prover goes through the protocol: it sends the commitments V, A, S, *)
(* draws y and z, sends T1, T2, draws x, sends taux, mu, t, draws w; then  *)
(* each round k of the inner-product argument sends L, R and draws u<k>.   *)
(* A challenge is drawn from the messages that are hashed into it, so all  *)
(* of these have to be on the table. The prover may hold one message back  *)
(* until later; the transcript may forget a message (skip) at some         *)
(* challenges, hash two messages in the other order (swap), or be a        *)
(* constant. The prover wins if it gets to choose                          *)
(*   V<j>, T1 or T2 knowing x     - it closes the equation for t           *)
(*   A knowing y and z            - it adapts its "bits" to them           *)
(*   S knowing x                  - it opens A + xS to anything            *)
(*   L<k> or R<k> knowing u<k>    - it continues with any vectors          *)
(* With the full transcript it never does. The winning programs are then   *)
(* executed against the verifier of the library, which has to refuse them. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ms, RoundsOf   \* numbers of values; rounds in which L and R are played with

VARIABLES g,     \* the game: number of values, skips, swap, constant challenge, message that may be held back
          pos, sent, known, won
vars == <<g, pos, sent, known, won>>

LogM(m) == CASE m = 1 -> 0 [] m = 2 -> 1 [] m = 4 -> 2 [] m = 8 -> 3 [] m = 16 -> 4
K(m) == 6 + LogM(m)
N(s, i) == s \o ToString(i)
Snd(n) == [k |-> "send", n |-> n]
Drw(n) == [k |-> "draw", n |-> n]
RECURSIVE Rnds(_, _)
Rnds(i, k) == IF i > k THEN <<>> ELSE <<Snd(N("L", i)), Snd(N("R", i)), Drw(N("u", i))>> \o Rnds(i + 1, k)
MkProtocol(m) == [j \in 1..m |-> Snd(N("V", j))] \o <<Snd("A"), Snd("S"), Drw("yz"), Snd("z"), Snd("T1"), Snd("T2"), Drw("x"), Snd("x"), Snd("taux"), Snd("mu"), Snd("t"), Drw("w")>> \o Rnds(1, K(m))
Protocols == [m \in Ms |-> MkProtocol(m)]
Protocol(m) == Protocols[m]
UsOf == [m \in Ms |-> {N("u", i) : i \in 1..K(m)}]
Us(m) == UsOf[m]
Poss == [m \in Ms |-> [s \in {Protocol(m)[i] : i \in 1..Len(Protocol(m))} |-> CHOOSE i \in 1..Len(Protocol(m)) : Protocol(m)[i] = s]]
Pos(m, s) == Poss[m][s]
(* what a challenge is the hash of *)
Start(m, c) == IF c \in Us(m) THEN Pos(m, Snd("L1")) ELSE 1
Chals(m) == {"yz", "x", "w"} \cup Us(m)
HashedOf == [m \in Ms |-> [c \in Chals(m) |-> {Protocol(m)[i].n : i \in {i \in Start(m, c)..Pos(m, Drw(c)) : Protocol(m)[i].k = "send"}}]]
Hashed(m, c) == HashedOf[m][c]
Later(m, n) == {c \in Chals(m) : n \in Hashed(m, c)}
Upto(m, n, c) == {d \in Later(m, n) : Pos(m, Drw(d)) <= Pos(m, Drw(c))}

Vsome(m) == IF m <= 4 THEN 1..m ELSE {1, 2, m \div 2 + 1, m}
Played(m) == {N("V", j) : j \in Vsome(m)} \cup {"A", "S", "T1", "T2", "taux", "mu", "t"} \cup {N(s, i) : s \in {"L", "R"}, i \in (RoundsOf \cup {K(m)})}
Derived == {"z", "x"}
Forget(n, C) == {[m |-> n, c |-> c] : c \in C}
Skips(m, n) == LET L == Later(m, n) IN
  {Forget(n, L)} \cup {Forget(n, {c}) : c \in L \cap {"yz", "x", "w", "u1", N("u", K(m))}} \cup {Forget(n, Upto(m, n, c)) : c \in L \cap {"yz", "x", "w", "u1", "u2"}}
(* several messages forgotten at once, and the one the prover holds back *)
Grp(m, ns, l) == [sk |-> UNION {Forget(n, Later(m, n)) : n \in ns}, l |-> l]
Groups(m) == {Grp(m, {N("V", j) : j \in i..m}, N("V", m)) : i \in 2..m} \cup {Grp(m, {N("V", j) : j \in 1..i}, "V1") : i \in 1..m}
        \cup {Grp(m, {N("V", j) : j \in {j \in 1..m : j % 2 = b}}, N("V", IF b = 1 THEN 1 ELSE 2)) : b \in IF m = 1 THEN {1} ELSE {0, 1}}
        \cup {Grp(m, {N(s, k) : k \in 1..K(m)}, N(s, l)) : s \in {"L", "R"}, l \in {1, 2, K(m)}}
        \cup {Grp(m, {N(s, k) : s \in {"L", "R"}, k \in i..K(m)}, N("R", K(m))) : i \in {1, 2, K(m)}}
        \cup {Grp(m, {"T1", "T2"}, "T1"), Grp(m, {"A", "S"}, "A"), Grp(m, {"A", "S"}, "S"), Grp(m, {"A", "S", "T1", "T2"}, "T2")}
(* two neighbours in the hash of a challenge, named by the first *)
Swaps(m) == UNION {{[m |-> Protocol(m)[i].n, c |-> c] : i \in {i \in Start(m, c)..(Pos(m, Drw(c)) - 1) : Protocol(m)[i].k = "send" /\ Protocol(m)[i + 1].k = "send"}} : c \in {"yz", "x", "w", "u1", N("u", K(m))}}
Game(m, sk, sw, wk, l) == [m |-> m, skip |-> sk, swap |-> sw, weak |-> wk, late |-> l]
Games == UNION {
       {Game(m, {}, {}, "", "none")}
  \cup {Game(m, {}, {}, "", n) : n \in Played(m)}
  \cup UNION {{Game(m, sk, {}, "", l) : sk \in Skips(m, n), l \in {n, "none"}} : n \in Played(m)}
  \cup UNION {{Game(m, sk, {}, "", "none") : sk \in Skips(m, n)} : n \in Derived}
  \cup {Game(m, Forget("V1", Later(m, "V1")) \cup Forget(N("V", m), Later(m, "V1")), {}, "", l) : l \in {"V1", "none"}}
  \cup UNION {{Game(m, x.sk, {}, "", l) : l \in {x.l, "none"}} : x \in Groups(m)}
  \cup {Game(m, {}, {s}, "", "none") : s \in Swaps(m)}
  \cup {Game(m, {}, {}, "x1", l) : l \in {"T1", "T2", "none"}}
  \cup {Game(m, {}, {}, "u1", l) : l \in {"L1", "R2", "none"}}
  \cup {Game(m, {}, {}, w, "none") : w \in {"y1", "z1", "w1", "yz", "zy"} \cup IF m = 1 THEN {} ELSE {"yrep", "zflat"}} : m \in Ms}

Const(c) == CASE g.weak = "x1" -> c = "x" [] g.weak = "u1" -> c \in Us(g.m) [] OTHER -> FALSE
Needs(c) == IF Const(c) THEN {} ELSE Hashed(g.m, c) \ {s.m : s \in {s \in g.skip : s.c = c}}

Init == g \in Games /\ pos = 1 /\ sent = {} /\ known = {} /\ won = FALSE
Step == Protocol(g.m)[pos]
Wins(n) == CASE n \in {"T1", "T2"} \/ n \in {N("V", j) : j \in 1..g.m} -> "x" \in known
             [] n = "A" -> "yz" \in known
             [] n = "S" -> "x" \in known
             [] OTHER -> \E k \in 1..K(g.m) : n \in {N("L", k), N("R", k)} /\ N("u", k) \in known
Send(n) == sent' = sent \cup {n} /\ won' = (won \/ Wins(n))
Advance == /\ pos <= Len(Protocol(g.m))
           /\ pos' = pos + 1 /\ g' = g
           /\ IF Step.k = "send"
              THEN known' = known /\ (Send(Step.n) \/ (Step.n = g.late /\ UNCHANGED <<sent, won>>))
              ELSE Needs(Step.n) \subseteq sent /\ known' = known \cup {Step.n} /\ UNCHANGED <<sent, won>>
Held == g.late # "none" /\ g.late \notin sent /\ pos > Pos(g.m, Snd(g.late))
SendLate == Held /\ Send(g.late) /\ UNCHANGED <<g, pos, known>>
Next == Advance \/ SendLate
Spec == Init /\ [][Next]_vars

Done == pos > Len(Protocol(g.m)) /\ (g.late = "none" \/ g.late \in sent)
Full == g.skip = {} /\ g.weak = ""
NoForgery == Full => ~won
Typed == sent \subseteq {Protocol(g.m)[i].n : i \in 1..Len(Protocol(g.m))}

Strs(S) == {s.m \o "@" \o s.c : s \in S}
Prog(close, vals, ok, tag) == [m |-> g.m, skip |-> Strs(g.skip), swap |-> Strs(g.swap), weak |-> g.weak, close |-> close, vals |-> vals, ok |-> ok, tag |-> tag]
Emit == Done => /\ won => PrintT("@@" \o ToJson(Prog(g.late, "out", FALSE, "forged")))
                /\ g.late = "none" => PrintT("@@" \o ToJson(Prog("", "in", g.swap = {} /\ Full, IF g.swap = {} /\ Full THEN "interop" ELSE "transcript")))
=============================================================================
