-------------------------------- MODULE Shared --------------------------------
(***************************************************************************)
(* Objects shared by goroutines (C25). Every operation below reads some    *)
(* shared objects and takes time: it begins, looks at its operands and     *)
(* ends. Those of Writers are the unsafe ones: from their beginning to     *)
(* their end they leave their operands torn (normalising a point in place, *)
(* filling a cache, reusing a buffer). The library has Writers = {}: no    *)
(* schedule then races, and every caller gets what it would get alone.     *)
(*                                                                         *)
(* Those of Lazy write when they are called for the first time ever, into  *)
(* something that belongs to no object (a table made when it is needed).   *)
(* Only a process that starts with two calls of them at once races: hence  *)
(* the cold programs, each of which is executed by a process of its own.   *)
(*                                                                         *)
(* A program is a list of threads, a thread a list of calls [o, i]: the    *)
(* operation o on the i-th set of objects, made as `from' says.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Fams, Threads, Calls, Insts, Origins, Writers, Lazy, Cold

Op(o, reads, res) == [o |-> o, reads |-> reads, res |-> res]
\* res: the verdict, or "value" for a result that is a function of the operands, or "good" for a random one that must be valid
Bls == << Op("pkmarshal", {"pk"}, "value"), Op("pktext", {"pk"}, "value"), Op("pkagg", {"pk"}, "value"), Op("newapk", {"pk"}, "value"),
          Op("aggapks", {"pk"}, "value"), Op("apkmarshal", {"apk"}, "value"), Op("apktext", {"apk"}, "value"), Op("apkcopy", {"apk"}, "value"), Op("apkpk", {"apk", "pk"}, "value"),
          Op("apkcopyagg", {"apk", "pk"}, "value"), Op("sign", {"sk", "pk", "msg"}, "value"), Op("usign", {"sk", "msg"}, "value"),
          Op("sigmarshal", {"sig"}, "value"), Op("sigcompress", {"sig"}, "value"), Op("sigcopy", {"sig"}, "value"),
          Op("sigcopyagg", {"sig"}, "value"), Op("sigadd", {"sig", "usig", "pk"}, "value"), Op("umarshal", {"usig"}, "value"),
          Op("ucompress", {"usig"}, "value"), Op("uagg", {"usig"}, "value"), Op("ubatch", {"usig"}, "value"),
          Op("verify", {"apk", "msg", "sig"}, "true"), Op("verifybad", {"apk", "msg", "sig"}, "false"),
          Op("vbatch", {"apk", "msg", "sig"}, "true"), Op("vunsafe", {"pk", "usig", "msg"}, "true"),
          Op("vunsafebad", {"pk", "usig", "msg"}, "false"), Op("vubatch", {"pk", "usig", "msg"}, "true"), Op("decode", {"bytes"}, "value") >>
Merkle == << Op("vtree", {"tree"}, "true"), Op("vtreebad", {"badtree"}, "false"), Op("vcontent", {"tree", "payload"}, "true"),
             Op("vcontentbad", {"tree"}, "false"), Op("vnode", {"tree"}, "value"), Op("nodehash", {"tree"}, "value"),
             Op("newtree", {"payload"}, "value"), Op("root", {"tree"}, "value") >>
Mlsag == << Op("mverify", {"msig"}, "true"), Op("mverifybad", {"msig"}, "false"), Op("mencode", {"msig"}, "value"), Op("mencodenokeys", {"msig"}, "value"),
            Op("mequals", {"msig"}, "true"), Op("mequalsbad", {"msig"}, "false"), Op("mkeys", {"msig"}, "value"), Op("mdecode", {"bytes"}, "value"),
            Op("mprove", {"decoys", "secret", "msg"}, "good"), Op("mprovesub", {"decoys", "secret", "msg"}, "good"), Op("mimage", {"secret"}, "value"),
            Op("bverify", {"bsig"}, "true"), Op("bverifybad", {"bsig"}, "false"), Op("bsign", {"mixin", "secret", "msg"}, "good") >>
Range == << Op("rverify", {"proof"}, "true"), Op("rverifybad", {"badproof"}, "false"), Op("rencode", {"proof"}, "value"), Op("rencodenocom", {"proof"}, "value"),
            Op("requals", {"proof"}, "true"), Op("requalsbad", {"proof"}, "false"), Op("rdecode", {"bytes"}, "value"), Op("rcommits", {"proof"}, "value"),
            Op("rprove", {"values"}, "good") >>
Ipa == << Op("iverify", {"ip", "gens"}, "true"), Op("iverifybad", {"ip", "gens"}, "false"), Op("iscalars", {"ip"}, "value"),
            Op("iencode", {"ip"}, "value"), Op("iequals", {"ip"}, "true"), Op("igenerate", {"gens", "vectors"}, "value") >>
OpsOf == [bls |-> Bls, merkle |-> Merkle, mlsag |-> Mlsag, range |-> Range, ipa |-> Ipa]

VARIABLES fam, from, prog, phase, at, where, torn, got, warm
vars == <<fam, from, prog, phase, at, where, torn, got, warm>>
\* prog[t][k] = [n |-> index of the operation, i |-> objects]; at[t]: the call under way; where[t]: before, in or after it

Init == /\ fam \in Fams /\ from \in Origins
        /\ prog = <<>> /\ phase = "pick" /\ at = <<>> /\ where = <<>> /\ torn = {} /\ got = <<>>
        /\ warm = IF Cold THEN {} ELSE Lazy   \* what was called before

OpOf(c) == OpsOf[fam][c.n]
Le(c, d) == c.n < d.n \/ (c.n = d.n /\ c.i <= d.i)
Start(p) == /\ prog' = p
            /\ IF Len(p) = Threads
               THEN phase' = "run" /\ at' = [t \in 1..Threads |-> 1] /\ where' = [t \in 1..Threads |-> "before"] /\ got' = [t \in 1..Threads |-> <<>>]
               ELSE phase' = phase /\ at' = at /\ where' = where /\ got' = got
            /\ UNCHANGED <<fam, from, torn, warm>>
\* the threads of one call each, up to their order; the first thread has the first objects
Pick == /\ phase = "pick"
        /\ \E n \in 1..Len(OpsOf[fam]), i \in Insts :
             /\ IF prog = <<>> THEN i = 1 ELSE prog[Len(prog)][1].n <= n
             /\ Start(Append(prog, <<[n |-> n, i |-> i]>>))

\* a process that begins with the same call in every thread
PickTwin == /\ phase = "pick"
            /\ \E n \in 1..Len(OpsOf[fam]) : (IF prog = <<>> THEN TRUE ELSE prog[1][1].n = n) /\ Start(Append(prog, <<[n |-> n, i |-> 1]>>))

Call(t) == prog[t][at[t]]
\* the objects a call reads, and the ones it leaves torn
Table(c) == IF OpOf(c).o \in Lazy THEN {<<OpOf(c).o, 0>>} ELSE {}
Reads(c) == {<<x, c.i>> : x \in OpOf(c).reads} \cup Table(c)
Tears(c) == (IF OpOf(c).o \in Writers THEN Reads(c) ELSE {}) \cup (IF OpOf(c).o \in warm THEN {} ELSE Table(c))
Begin(t) == /\ phase = "run" /\ where[t] = "before"
            /\ where' = [where EXCEPT ![t] = "in"]
            /\ torn' = torn \cup {<<t, x>> : x \in Tears(Call(t))}
            /\ UNCHANGED <<fam, from, prog, phase, at, got, warm>>
Look(t) == /\ phase = "run" /\ where[t] = "in"
           /\ where' = [where EXCEPT ![t] = "seen"]
           /\ got' = [got EXCEPT ![t] = Append(@, IF \E w \in torn : w[1] # t /\ w[2] \in Reads(Call(t)) THEN "garbage" ELSE OpOf(Call(t)).res)]
           /\ UNCHANGED <<fam, from, prog, phase, at, torn, warm>>
End(t) == /\ phase = "run" /\ where[t] = "seen"
          /\ torn' = {w \in torn : w[1] # t}
          /\ warm' = warm \cup ({OpOf(Call(t)).o} \cap Lazy)
          /\ IF at[t] = Len(prog[t]) THEN where' = [where EXCEPT ![t] = "after"] /\ at' = at
             ELSE where' = [where EXCEPT ![t] = "before"] /\ at' = [at EXCEPT ![t] = @ + 1]
          /\ UNCHANGED <<fam, from, prog, phase, got>>
Run == \E t \in DOMAIN prog : Begin(t) \/ Look(t) \/ End(t)
Next == Pick \/ Run
Spec == Init /\ [][Next]_vars
SpecCold == Init /\ [][PickTwin \/ Run]_vars

\* programs of long threads, picked at random; they are not run here: their schedules are those of the threads of one call
InitRand == /\ fam = "bls" /\ from = "made" /\ prog = <<>> /\ phase = "pick" /\ at = <<>> /\ where = <<>> /\ torn = {} /\ got = <<>> /\ warm = Lazy
PickRand == /\ phase = "pick"
            /\ \E f \in {IF prog = <<>> THEN RandomElement(Fams) ELSE fam} : \E g \in {IF prog = <<>> THEN RandomElement(Origins) ELSE from} :
               \E p \in {[k \in 1..Calls |-> [n |-> RandomElement(1..Len(OpsOf[f])), i |-> RandomElement(Insts)]]} :
                 /\ fam' = f /\ from' = g /\ prog' = Append(prog, p)
                 /\ phase' = IF Len(prog) + 1 = Threads THEN "run" ELSE "pick"
            /\ UNCHANGED <<at, where, torn, got, warm>>
SpecRand == InitRand /\ [][PickRand]_vars

\* no two calls under way conflict
NoRace == \A w \in torn : \A t \in DOMAIN prog : t # w[1] /\ where[t] \in {"in", "seen"} => w[2] \notin Reads(Call(t))
\* every caller gets what it would get alone
Alone == phase = "run" => \A t \in DOMAIN got : \A k \in DOMAIN got[t] : got[t][k] = OpOf(prog[t][k]).res
\* the calls all end
Done == phase = "run" /\ where # <<>> /\ \A t \in DOMAIN prog : where[t] = "after"
Shown(p) == [t \in DOMAIN p |-> [k \in DOMAIN p[t] |-> [o |-> OpsOf[fam][p[t][k].n].o, i |-> p[t][k].i, res |-> OpsOf[fam][p[t][k].n].res]]]
Emit == Done => PrintT("@@" \o ToJson([fam |-> fam, from |-> from, cold |-> Cold, prog |-> Shown(prog)]))
EmitRand == phase = "run" => PrintT("@@" \o ToJson([fam |-> fam, from |-> from, cold |-> Cold, prog |-> Shown(prog)]))
=============================================================================
