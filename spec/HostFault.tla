------------------------------ MODULE HostFault -----------------------------
(***************************************************************************)
(* The honest host with a device one of whose answers is spoiled: replaced *)
(* by an error, lost, or with one field altered, missing or taken from     *)
(* another answer.                                                         *)
(*                                                                         *)
(* What matters is where an altered value flows: into the hashed part of   *)
(* the transaction (prefix or message), back to the device with a later    *)
(* message, into signature material nobody checks, or nowhere.             *)
(***************************************************************************)
EXTENDS HostSign

VARIABLES fs,      \* scenario
          prm,     \* order of the inputs
          flt,     \* the fault: step, field, kind
          pc,      \* answers received
          taint,   \* classes of host data that differ from the device's
          echo,    \* steps at which an altered value returns to the device
          out, at  \* outcome, and the step at which it was decided

fvars == <<fs, prm, flt, pc, taint, echo, out, at>>

M(k, i) == [m |-> k, i |-> i]
OutMsgs(s) ==
    LET F[d \in 0..Len(s.dst)] ==
          IF d = 0 THEN <<>>
          ELSE F[d - 1] \o <<M("out", d)>>
               \o (IF Offloads(s) /\ DetMasks(s) /\ BatchEnd(s.grp, 0, d) = d THEN <<M("bp", d)>> ELSE <<>>)
    IN F[Len(s.dst)]
Msgs(s) == <<M("init", 0)>> \o [i \in 1..s.nIn |-> M("input", i)] \o <<M("perm", 0)>>
           \o [i \in 1..s.nIn |-> M("vini", i)] \o <<M("allin", 0)>> \o OutMsgs(s) \o <<M("allout", 0)>>
           \o [i \in 1..s.nIn |-> M("sign", i)] \o <<M("final", 0)>>
StepOf(s, k, i) == CHOOSE n \in 1..Len(Msgs(s)) : Msgs(s)[n] = M(k, i)
LastOf(s, k) == CHOOSE n \in 1..Len(Msgs(s)) : Msgs(s)[n].m = k /\ \A x \in (n + 1)..Len(Msgs(s)) : Msgs(s)[x].m # k
EndOfBatch(s, d) == BatchEnd(s.grp, 0, d)

\* corrected pseudo output: the device answers with a new one when it signs
Corr(s, i) == DetMasks(s) /\ i = s.nIn
Pos(p, i) == CHOOSE k \in 1..Len(p) : p[k] = i

Fields(s, n) == LET m == Msgs(s)[n] IN
    CASE m.m = "init"   -> {"hmac" \o ToString(d) : d \in 1..Len(s.dst)} \cup {"offload"}
      [] m.m = "input"  -> {"vini", "vini_hmac", "pseudo_out", "pseudo_out_hmac", "alpha", "spend"}
      [] m.m = "allin"  -> IF Offloads(s) /\ ~DetMasks(s) THEN {"masks"} ELSE {}
      [] m.m = "out"    -> {"tx_out", "vouti_hmac", "pk_dest", "pk_mask", "ecdh"}
                           \cup (IF ~Offloads(s) /\ EndOfBatch(s, m.i) = m.i THEN {"rsig"} ELSE {})
                           \cup (IF Offloads(s) /\ DetMasks(s) THEN {"mask"} ELSE {})
      [] m.m = "allout" -> {"extra", "prefix_hash", "fee", "message", "rv_type", "full_hash"}
      [] m.m = "sign"   -> {"signature"} \cup (IF Corr(s, prm[m.i]) THEN {"new_pseudo_out"} ELSE {})
      [] m.m = "final"  -> {"salt", "rand_mult", "keys"}
      [] OTHER          -> {}

Class(s, n, f) ==
    CASE f \in {"vini", "tx_out", "extra"}                              -> {"prefix"}
      [] f \in {"pk_mask", "ecdh", "rsig", "fee", "message", "rv_type"} -> {"message"}
      [] f \in {"prefix_hash", "full_hash"}                             -> {"check"}
      [] f \in {"signature", "new_pseudo_out", "salt", "rand_mult", "keys"} -> {"free"}
      [] OTHER                                                          -> {}
\* where the altered value goes back to the device (which authenticates or verifies it)
Echo(s, p, n, f) == LET m == Msgs(s)[n] IN
    CASE m.m = "init" /\ f = "offload" -> {StepOf(s, "allout", 0)}      \* at the latest
      [] m.m = "init"  -> {StepOf(s, "out", d) : d \in {k \in 1..Len(s.dst) : f = "hmac" \o ToString(k)}}
      [] f = "vini" -> {LastOf(s, "vini")}                              \* the order may change with the key image
      [] f = "vini_hmac" -> {StepOf(s, "vini", Pos(p, m.i))}
      [] f \in {"pseudo_out", "pseudo_out_hmac"} -> IF Corr(s, m.i) THEN {} ELSE {StepOf(s, "sign", Pos(p, m.i))}
      [] f \in {"alpha", "spend"} -> {StepOf(s, "sign", Pos(p, m.i))}
      [] f = "masks" -> {LastOf(s, "out")}
      [] f = "mask"  -> {StepOf(s, "bp", EndOfBatch(s, m.i))}
      [] OTHER -> {}

Kinds(s, n, f) ==
    {"flip", "none"} \cup (IF Msgs(s)[n].m \in {"input", "out", "sign"} THEN {"swap"} ELSE {})
\* swapping or dropping something that is not there or is the same everywhere is no fault
Real(s, n, f, k) ==
    /\ k = "swap" => /\ Cardinality({x \in 1..Len(Msgs(s)) : Msgs(s)[x].m = Msgs(s)[n].m}) > 1
                     /\ f \notin {"rsig", "new_pseudo_out"}
                     /\ n > StepOf(s, Msgs(s)[n].m, 1)
    /\ k = "none" => f \notin {"offload"}

FInit == /\ fs \in HostScenarios(Fam)
         /\ prm \in {p \in [1..fs.nIn -> 1..fs.nIn] : \A a, b \in 1..fs.nIn : p[a] = p[b] => a = b}
         /\ \E n \in 1..Len(Msgs(fs)) :
              \/ flt = [s |-> n, f |-> "-", k |-> "error"]
              \/ Msgs(fs)[n].m \in {"perm", "vini", "bp"} \cup (IF DetMasks(fs) THEN {"allin"} ELSE {})
                 /\ flt = [s |-> n, f |-> "-", k |-> "lost"]
              \/ \E f \in Fields(fs, n) : \E k \in Kinds(fs, n, f) :
                    Real(fs, n, f, k) /\ flt = [s |-> n, f |-> f, k |-> k]
         /\ pc = 0 /\ taint = {} /\ echo = {} /\ out = "run" /\ at = 0
         /\ scn = fs /\ ph = "NONE" /\ sess = 0 /\ regs = <<>> /\ perm = <<>> /\ vins = <<>> /\ outs = <<>>
         /\ cov = 0 /\ sg = <<>> /\ old = NoOld /\ act = [m |-> "-"] /\ resp = "-"

Stop(o) == out' = o /\ at' = pc + 1 /\ UNCHANGED <<taint, echo>>
FNext == /\ out = "run" /\ pc < Len(Msgs(fs))
         /\ UNCHANGED <<fs, prm, flt, vars>>
         /\ pc' = pc + 1
         /\ LET n == pc + 1
                hit == flt.s = n
            IN IF n \in echo \/ "lost" \in taint THEN Stop("error")          \* the device refuses
               ELSE IF hit /\ flt.k = "error" THEN Stop("error")
               ELSE LET t2 == taint \cup (IF ~hit THEN {}
                                          ELSE IF flt.k = "lost" THEN {"lost"} ELSE Class(fs, n, flt.f))
                        e2 == echo \cup (IF hit /\ flt.k # "lost" THEN Echo(fs, prm, n, flt.f) ELSE {})
                    IN IF Msgs(fs)[n].m = "allout" /\ t2 \cap {"prefix", "message", "check"} # {}
                       THEN Stop("error")                                    \* the hashes differ
                       ELSE /\ taint' = t2 /\ echo' = e2
                            /\ IF n = Len(Msgs(fs)) THEN out' = "done" /\ at' = n ELSE UNCHANGED <<out, at>>

\* H03: what the host returns has the hashed content the device agreed to
FSafe == out = "done" => taint \cap {"prefix", "message", "check", "lost"} = {}
FStops == flt.k = "error" /\ out # "run" => out = "error" /\ at = flt.s
FTerm == <>(out # "run")
FSpec == FInit /\ [][FNext]_<<fvars, vars>> /\ WF_<<fvars, vars>>(FNext)
FEmit == out # "run" => PrintT("@F " \o ToJson([id |-> fs.id, flt |-> flt, m |-> Msgs(fs)[flt.s], p |-> prm, out |-> out, at |-> at, n |-> Len(Msgs(fs)), free |-> "free" \in taint]))
FEmitScn == PrintT("@S " \o ToJson([id |-> fs.id, scn |-> fs, pred |-> Pred(fs)]))
FInv == FSafe /\ FStops /\ FEmit /\ (pc = 0 => FEmitScn)
=============================================================================
