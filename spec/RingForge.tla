------------------------------ MODULE RingForge ------------------------------
(***************************************************************************)
(* The algebraic adversary against the ring signatures (C10, C11, C16).    *)
(*                                                                         *)
(* The verifier hashes, member by member, the message, L_k = r_k G + c K_k *)
(* for each key and R_k = r_k H(K_k) + c I_k for each key image. An        *)
(* adversary closes the ring at one member j: there it commits to L and R  *)
(* first and then needs responses that meet the challenge c. One response  *)
(* serves both L_k and R_k, so it can "solve" for either of them, with the *)
(* discrete logarithm it knows. Everywhere else in the ring the responses  *)
(* are free, as they are for an honest signer.                             *)
(*                                                                         *)
(* For each key of member j:                                               *)
(*   key  known    the adversary has the secret                            *)
(*        unknown  it has not                                              *)
(*        un       an uninitialised point, which absorbs what is added     *)
(*        late     chosen once the challenge is known                      *)
(*   img  true  x H(K), of the genuine secret x (public once K has signed) *)
(*        y     y H(K) for a y of the adversary's choice                   *)
(*        id    the identity (y = 0)                                       *)
(*        fresh, key  a point of unknown relation; the key itself          *)
(*        un, late    as above                                             *)
(*        none  this key has no image                                      *)
(* Weak names a verifier that forgot something: the adversary has to break *)
(* each of these, else the attacks would be worthless.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Scheme, MaxN, MaxN2

VARIABLES p
Keys == {"known", "unknown", "un", "late"}
Imgs == {"true", "y", "id", "fresh", "key", "un", "late"}
Legs == {l \in {[key |-> k, img |-> i, solve |-> s] : k \in Keys, i \in Imgs, s \in {"L", "R"}} : l.solve = "R" => l.img \in {"y", "id"}}
Bare == {[key |-> k, img |-> "none", solve |-> "L"] : k \in Keys}

(* What the adversary leaves out of the hashes, hoping that the verifier does so too: nothing, all L or R, those of *)
(* the second key, those of the first or last member, or whole members.                                          *)
Skips == {"L", "R", "L2", "R2", "L@1", "R@1", "L@n", "R@n", "all"}
Prog(n, j, ls, sk) == [scheme |-> Scheme, n |-> n, j |-> j, legs |-> ls, skip |-> sk]
Short == Skips \ {"L2", "R2"}

(* a late image or a late key with an image changes the R of every other member: it takes a ring of one *)
LOk(q, a) == \/ a.key = "known" /\ a.solve = "L"
             \/ a.key = "un"
             \/ a.key = "late" /\ (a.img = "none" \/ q.n = 1)
ROk(q, a) == \/ a.img = "none"
             \/ a.img = "true" /\ a.key = "known"
             \/ a.img \in {"y", "id"} /\ a.solve = "R" /\ a.key # "late"
             \/ a.img = "un"
             \/ a.img = "late" /\ q.n = 1
HasUn(q) == \E k \in DOMAIN q.legs : q.legs[k].key = "un" \/ q.legs[k].img = "un"
\* what the verifier leaves out
VSkip(Weak, q) == CASE Weak = "noL" -> "L" [] Weak = "noR" -> "R" [] Weak = "noL2" -> "L2" [] Weak = "noR2" -> "R2"
              [] Weak = "noRfirst" -> "R@1" [] Weak = "noLlast" -> "L@n"
              [] Weak = "idR" -> IF \A k \in DOMAIN q.legs : q.legs[k].img \in {"id", "none"} THEN "R" ELSE "none"
              [] Weak = "unall" -> IF HasUn(q) THEN "all" ELSE "none"
              [] OTHER -> "none"
Out(q, e, k) == \/ q.skip = e \/ q.skip = "all" \/ (q.skip = e \o "2" /\ k = 2)
                \/ (q.skip = e \o "@1" /\ q.j = 1) \/ (q.skip = e \o "@n" /\ q.j = q.n)
AcceptBy(Weak, q) == /\ Weak \in {"un", "unall"} \/ ~HasUn(q)
             /\ q.skip = VSkip(Weak, q)
             /\ \A k \in DOMAIN q.legs : (LOk(q, q.legs[k]) \/ Out(q, "L", k)) /\ (ROk(q, q.legs[k]) \/ Out(q, "R", k))

Accept(q) == AcceptBy("none", q)

NoSecret(q) == \E k \in DOMAIN q.legs : q.legs[k].key # "known"
WrongImage(q) == \E k \in DOMAIN q.legs : q.legs[k].img \notin {"true", "none"}
Forged(q) == NoSecret(q) \/ WrongImage(q)
(* the challenges bind neither the ring nor the images, so whatever no other member depends on can be chosen last *)
Late(q) == \E k \in DOMAIN q.legs : q.legs[k].key = "late" \/ q.legs[k].img = "late"

One(sk) == \E n \in 1..MaxN : \E j \in 1..n : \E a \in Legs : p = Prog(n, j, <<a>>, sk)
Two(sk, m, B) == \E n \in 1..m : \E j \in 1..n : \E a \in Legs : \E b \in B : p = Prog(n, j, <<a, b>>, sk)
Init == \/ (\E sk \in {"none"} \cup Short : One(sk))
        \/ Scheme = "mlsag" /\ (\/ Two("none", MaxN, Bare)
                                 \/ Two("none", MaxN2, Legs)
                                 \/ (\E sk \in Skips \ {"R2"} : Two(sk, MaxN2, Bare))
                                 \/ (\E sk \in {"R", "L2", "R2"} : Two(sk, 1, Legs)))
Next == FALSE /\ p' = p
Spec == Init /\ [][Next]_p

(* the adversary breaks every verifier that forgot something *)
Pairs == IF Scheme = "blsag" THEN {<<a>> : a \in Legs} ELSE {<<a, b>> : a \in Legs, b \in Legs \cup Bare}
Weaks == {"noL", "noR", "un", "unall", "idR", "noRfirst", "noLlast"} \cup IF Scheme = "blsag" THEN {} ELSE {"noL2", "noR2"}
ASSUME \A w \in Weaks : \E ls \in Pairs : \E sk \in Skips \cup {"none"} :
          LET q == Prog(1, 1, ls, sk) IN AcceptBy(w, q) /\ Forged(q) /\ ~Late(q)

NoForgery == Accept(p) /\ Forged(p) => Late(p)
Complete == ~Forged(p) /\ p.skip = "none" => Accept(p)
Tag == IF ~Accept(p) THEN (IF NoSecret(p) THEN "forgedkey" ELSE IF WrongImage(p) THEN "forgedimage" ELSE "otherhash")
       ELSE IF ~Forged(p) THEN "control"
       ELSE IF NoSecret(p) THEN (IF p.n = 1 THEN "ring1key" ELSE "latekey")
       ELSE "ring1image"
Emit == PrintT("@@" \o ToJson(p @@ [ok |-> Accept(p), tag |-> Tag]))
=============================================================================
