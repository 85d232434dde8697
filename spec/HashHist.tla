------------------------------ MODULE HashHist -------------------------------
(***************************************************************************)
(* Hash helpers, checksums and entropy (C24) as a history of calls.        *)
(* Chunks stand for byte strings of the lengths in Lens (around every      *)
(* block boundary). A hash object holds what was written to it; a helper   *)
(* starts from nothing. Every result stays as it was returned, unless the  *)
(* caller writes into it; input buffers are the caller's.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NC, NB, Depth

Algs == {"b256", "b512", "s256", "s512", "xx"}
Chunks == 1..NC
VARIABLES objs, res, log
vars == <<objs, res, log>>

NoObj == [alg |-> "none", c |-> <<>>]
Dig(a, c) == [alg |-> a, c |-> c]
Init == objs = [b \in 1..NB |-> NoObj] /\ res = <<>> /\ log = <<>>

Wants == {"right", "plus", "swapped", "zero", "tail"}
Calls ==
       {[o |-> "help", alg |-> a, c |-> c] : a \in Algs, c \in Chunks}
  \cup {[o |-> "new", b |-> b, alg |-> a] : b \in 1..NB, a \in Algs}
  \cup {[o |-> "perform", b |-> b, c |-> c] : b \in {x \in 1..NB : objs[x].alg # "none"}, c \in Chunks}
  \cup {[o |-> "write", b |-> b, c |-> c] : b \in {x \in 1..NB : objs[x].alg # "none"}, c \in Chunks}
  \cup {[o |-> "reset", b |-> b] : b \in {x \in 1..NB : objs[x].alg # "none"}}
  \cup {[o |-> "sum", c |-> c] : c \in Chunks}
  \cup {[o |-> "cmp", c |-> c, w |-> w] : c \in Chunks, w \in Wants}
  \cup {[o |-> "cmpof", c |-> c, d |-> d] : c \in Chunks, d \in Chunks}
  \cup {[o |-> "fail", c |-> c] : c \in Chunks}
  \cup {[o |-> "entropy", n |-> n] : n \in {0, 1, 2, 16, 31, 32, 33, 64, 100, 1000, 70000, 300001, 1200000}}
  \cup {[o |-> "scribble", k |-> r] : r \in 1..Len(res)}
  \cup {[o |-> "spoil", c |-> c] : c \in Chunks}

\* scribble: the caller overwrites an earlier result; spoil: it overwrites the buffer it had passed and makes a new one
Do(x) ==
  LET r == CASE x.o = "help" -> Dig(x.alg, <<x.c>>)
             [] x.o = "perform" -> Dig(objs[x.b].alg, Append(objs[x.b].c, x.c))
             [] x.o = "sum" -> Dig("sum", <<x.c>>)
             [] x.o = "cmp" -> [ok |-> x.w = "right"]
             [] x.o = "cmpof" -> [ok |-> x.c = x.d]
             [] OTHER -> [none |-> TRUE]
  IN /\ objs' = CASE x.o = "new" -> [objs EXCEPT ![x.b] = [alg |-> x.alg, c |-> <<>>]]
                  [] x.o \in {"perform", "write"} -> [objs EXCEPT ![x.b].c = Append(@, x.c)]
                  [] x.o = "reset" -> [objs EXCEPT ![x.b].c = <<>>]
                  [] OTHER -> objs
     /\ res' = IF x.o \in {"help", "perform"} THEN Append(res, r) ELSE res
     /\ log' = Append(log, x @@ [r |-> r])
Next == Len(log) < Depth /\ \E x \in Calls : Do(x)
Spec == Init /\ [][Next]_vars
\* one call at random, chosen kind first
Kinds == {"help", "new", "perform", "perform2", "write", "reset", "sum", "cmp", "cmpof", "fail", "entropy", "scribble", "spoil"}
RandCall(o, c, d, a, b, w, n) ==
  LET live == objs[b].alg # "none" IN
  CASE o \in {"perform", "perform2"} /\ live -> [o |-> "perform", b |-> b, c |-> c]
    [] o = "write" /\ live -> [o |-> o, b |-> b, c |-> c]
    [] o = "reset" /\ live -> [o |-> o, b |-> b]
    [] o \in {"perform", "perform2", "write", "reset", "new"} -> [o |-> "new", b |-> b, alg |-> a]
    [] o \in {"sum", "fail", "spoil"} -> [o |-> o, c |-> c]
    [] o = "cmp" -> [o |-> o, c |-> c, w |-> w]
    [] o = "cmpof" -> [o |-> o, c |-> c, d |-> d]
    [] o = "entropy" -> [o |-> o, n |-> n]
    [] o = "scribble" /\ Len(res) > 0 -> [o |-> o, k |-> (c % Len(res)) + 1]
    [] OTHER -> [o |-> "help", alg |-> a, c |-> c]
NextRand == Len(log) < Depth /\ \E o \in {RandomElement(Kinds)} : \E c \in {RandomElement(Chunks)} : \E d \in {RandomElement(Chunks)} :
            \E a \in {RandomElement(Algs)} : \E b \in {RandomElement(1..NB)} : \E w \in {RandomElement(Wants)} : \E n \in {RandomElement({0, 1, 16, 33, 64, 100, 1000})} :
            Do(RandCall(o, c, d, a, b, w, n))
SpecRand == Init /\ [][NextRand]_vars

\* a helper's result is a function of its argument: equal calls anywhere in a history give equal results
Stateless == \A i, j \in 1..Len(log) : (log[i].o \in {"help", "sum", "cmp", "cmpof"} /\ log[j].o = log[i].o /\ [log[i] EXCEPT !.r = 0] = [log[j] EXCEPT !.r = 0]) => log[i].r = log[j].r
\* issued results never change
Kept == [][\A i \in 1..Len(res) : res'[i] = res[i]]_vars
Emit == Len(log) = Depth => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
