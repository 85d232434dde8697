----------------------------- MODULE Transcript ------------------------------
(***************************************************************************)
(* The Fiat-Shamir transcript (C26) as a store of hash caches. A cache     *)
(* holds the concatenation of the chunks appended since it was cleared     *)
(* last; its challenge is a function of that content alone. Results that   *)
(* were read stay as they are, and the caller's buffers are its own.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NT, NC, Depth

Chunks == 0..NC      \* 0: the empty byte string
VARIABLES cs, res, log
vars == <<cs, res, log>>
Init == cs = [t \in 1..NT |-> <<>>] /\ res = <<>> /\ log = <<>>
Lists == {<<>>} \cup {<<a>> : a \in Chunks} \cup {<<a, b>> : a \in Chunks, b \in Chunks} \cup {<<a, b, 1>> : a \in Chunks, b \in Chunks}
T == 1..NT
Ops == {"append", "result", "derive", "clear", "spoil", "literal"}
Strip(q) == SelectSeq(q, LAMBDA x : x # 0)
Do(o, t, q) ==
  /\ cs' = CASE o = "append" -> [cs EXCEPT ![t] = @ \o Strip(q)]
             [] o = "literal" -> [cs EXCEPT ![t] = Strip(q)]   \* HashCacher{Cache: the given bytes}
             [] o = "clear" -> [cs EXCEPT ![t] = <<>>]
             [] OTHER -> cs
  /\ res' = IF o = "result" THEN Append(res, cs[t]) ELSE res
  /\ log' = Append(log, [o |-> o, t |-> t, q |-> q, c |-> cs'[t]])
Next == Len(log) < Depth /\ \E t \in T : (\/ \E q \in Lists : \E o \in {"append", "literal"} : Do(o, t, q)
                                         \/ \E o \in Ops \ {"append", "literal"} : Do(o, t, <<>>))
Spec == Init /\ [][Next]_vars
NextRand == Len(log) < Depth /\ \E t \in {RandomElement(T)} : \E o \in {RandomElement(Ops \cup {"append2", "append3"})} :
               IF o \in {"append", "append2", "append3", "literal"} THEN \E q \in {RandomElement(Lists)} : Do(IF o = "literal" THEN o ELSE "append", t, q)
               ELSE Do(o, t, <<>>)
SpecRand == Init /\ [][NextRand]_vars

\* the content is the history of appends since the last clear
RECURSIVE Content(_, _)
Content(t, i) == IF i = 0 THEN <<>> ELSE LET l == log[i] IN
                 IF l.t # t THEN Content(t, i - 1)
                 ELSE CASE l.o = "clear" -> <<>>
                        [] l.o = "literal" -> Strip(l.q)
                        [] l.o = "append" -> Content(t, i - 1) \o Strip(l.q)
                        [] OTHER -> Content(t, i - 1)
Concat == \A t \in T : cs[t] = Content(t, Len(log))
Kept == [][\A i \in 1..Len(res) : res'[i] = res[i]]_vars
Pure == [][\A t \in T : (log'[Len(log')].o \in {"result", "derive", "spoil"} \/ log'[Len(log')].t # t) => cs'[t] = cs[t]]_vars
View == <<cs, res>>
Emit == Len(log) = Depth => PrintT("@@" \o ToJson([log |-> log, res |-> res]))
=============================================================================
