------------------------------- MODULE TsxSign -------------------------------
(***************************************************************************)
(* The signing device of the transaction signing protocol, driven by an    *)
(* arbitrary (Byzantine) host.                                             *)
(*                                                                         *)
(* One action per message: the device is woken up from its saved state,    *)
(* handles exactly one message, answers and goes back to sleep, so a       *)
(* message is the critical section of the implementation.                  *)
(*                                                                         *)
(* Cryptography is symbolic.  An item the device has authenticated (a      *)
(* pinned destination, a registered input, a pseudo output, an encrypted   *)
(* secret) is named by the index it was issued for; a message either       *)
(* carries the item unchanged (variant "ok") or names what the host has    *)
(* altered.  The replay harness turns the same names into bytes.           *)
(*                                                                         *)
(* After a refused message the device is DEAD: it remembers nothing.  The  *)
(* remaining variables then only describe what the host still knows, so    *)
(* that the host can try to go on from there.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, TsxScn

CONSTANTS Fam,      \* scenario family explored
          Focus,    \* kinds of deviations the host may use
          MaxSess   \* number of sessions the host may open

VARIABLES scn,    \* the transaction the host announces
          ph,     \* device phase
          sess,   \* number of sessions opened so far
          regs,   \* inputs registered: Seq([j, v])
          perm,   \* permutation accepted
          vins,   \* registered inputs hashed into the prefix, in order
          outs,   \* destinations hashed into the prefix, in order
          cov,    \* number of outputs covered by an accepted range proof
          sg,     \* registered inputs signed, in order
          old,    \* what the host kept of an earlier session
          act, resp   \* last message and the device's answer (not in the VIEW)

dev  == <<ph, sess, regs, perm, vins, outs, cov, sg, old>>
vars == <<scn, ph, sess, regs, perm, vins, outs, cov, sg, old, act, resp>>
View == <<scn, dev>>

nIn  == scn.nIn
nOut == Len(scn.dst)

SeqRange(s) == {s[i] : i \in 1..Len(s)}
IsPerm(p) == /\ Len(p) = nIn
             /\ SeqRange(p) = 0..(nIn - 1)
RECURSIVE SumF(_, _)
SumF(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumF(F, n - 1)

Offload == Offloads(scn)
Det     == DetMasks(scn)

\* cumulative end of the range proof batch that output number d (1-based) is in
RECURSIVE BatchEnd(_, _, _)
BatchEnd(g, acc, d) == IF d <= acc + Head(g) THEN acc + Head(g)
                       ELSE BatchEnd(Tail(g), acc + Head(g), d)
LastInBatch(d) == BatchEnd(scn.grp, 0, d) = d
\* the device waits for the range proof of the batch it has just completed
Awaiting == /\ Offload /\ Det /\ Len(outs) > 0
            /\ LastInBatch(Len(outs)) /\ cov < Len(outs)

Claimed(r) == LET s == scn.src[r.j] IN s.amt + (IF r.v = "inflate" THEN 5 ELSE 0)
InSum  == LET f(i) == Claimed(regs[i]) IN SumF(f, Len(regs))
OutSum == LET f(i) == scn.dst[outs[i]].amt IN SumF(f, Len(outs))

NoOld == [n |-> 0]

-----------------------------------------------------------------------------
Init == /\ scn \in Scenarios(Fam)
        /\ ph = "NONE" /\ sess = 0
        /\ regs = <<>> /\ perm = <<>> /\ vins = <<>> /\ outs = <<>>
        /\ cov = 0 /\ sg = <<>> /\ old = NoOld
        /\ act = [m |-> "-"] /\ resp = "-"

Answer(a, r) == act' = a /\ resp' = r
Keep(v) == UNCHANGED v

\* Any message the device does not accept ends the session.
Refuse(a) == /\ Answer(a, "fail")
             /\ ph' = "DEAD"
             /\ UNCHANGED <<scn, sess, regs, perm, vins, outs, cov, sg, old>>

\* A message that changes nothing but the phase
Step(a, ok, ph2) ==
    \/ /\ ok /\ ph' = ph2 /\ Answer(a, "ack")
       /\ UNCHANGED <<scn, sess, regs, perm, vins, outs, cov, sg, old>>
    \/ ~ok /\ Refuse(a)

-----------------------------------------------------------------------------
(* Init: may be sent at any time; it always abandons the previous session. *)
InitMsg ==
    /\ sess < MaxSess
    /\ LET a == [m |-> "init"] IN
       /\ sess' = sess + 1
       /\ old' = IF sess = 0 THEN NoOld
                 ELSE [n |-> sess, regs |-> regs, perm |-> perm, outs |-> outs, cov |-> cov]
       /\ regs' = <<>> /\ perm' = <<>> /\ vins' = <<>> /\ outs' = <<>>
       /\ cov' = 0 /\ sg' = <<>> /\ scn' = scn
       /\ \/ ~scn.approve /\ ph' = "REJ" /\ Answer(a, "fail")
          \/ /\ scn.approve /\ InitOK(scn)
             /\ ph' = "INP" /\ Answer(a, "ack")
          \/ /\ scn.approve /\ (~InitOK(scn) \/ InitLoose(scn))
             /\ ph' = "DEAD" /\ Answer(a, "fail")

(* SetInput: j is the output the host wants to spend *)
InVariants == IF "input" \in Focus THEN {"ok", "inflate", "foreign", "badreal", "swapkey"} ELSE {"ok"}
SetInput(j, v) ==
    LET a == [m |-> "input", j |-> j, v |-> v]
        ok == /\ ph = "INP" /\ Len(regs) < nIn
              /\ v \in {"ok", "inflate"} /\ Spendable(scn, j)
    IN \/ /\ ok
          /\ regs' = Append(regs, [j |-> j, v |-> v])
          /\ ph' = IF Len(regs) + 1 = nIn THEN "INPDONE" ELSE "INP"
          /\ Answer(a, "ack")
          /\ UNCHANGED <<scn, sess, perm, vins, outs, cov, sg, old>>
       \/ ~ok /\ Refuse(a)

(* Permutation of the inputs *)
PermCands ==
    LET base == [1..nIn -> 0..(nIn - 1)] IN
    IF "perm" \in Focus
    THEN base \cup {<<>>} \cup {[i \in 1..nIn |-> IF i = 1 THEN nIn ELSE i - 1]}
              \cup {[i \in 1..(nIn + 1) |-> i - 1]} \cup {[i \in 1..(nIn + 1) |-> IF i > nIn THEN 0 ELSE i - 1]}
              \cup (IF nIn > 1 THEN {[i \in 1..(nIn - 1) |-> i - 1]} ELSE {})
    ELSE IF "perms" \in Focus THEN {p \in base : IsPerm(p)}
    ELSE {[i \in 1..nIn |-> i - 1], [i \in 1..nIn |-> nIn - i]}
SetPerm(p) ==
    LET a == [m |-> "perm", p |-> p]
        ok == ph = "INPDONE" /\ IsPerm(p)
    IN \/ /\ ok /\ perm' = p /\ ph' = "PERM" /\ Answer(a, "ack")
          /\ UNCHANGED <<scn, sess, regs, vins, outs, cov, sg, old>>
       \/ ~ok /\ Refuse(a)

(* Vini: i is the registered input presented; 0 is a fabricated item *)
ViniVariants == IF "vini" \in Focus THEN {"ok", "src", "amount", "ring", "vini", "mac", "othermac"} ELSE {"ok"}
InputVini(i, v) ==
    LET a == [m |-> "vini", i |-> i, v |-> v]
        ok == /\ ph \in {"PERM", "VINS"} /\ Len(vins) < nIn
              /\ v = "ok" /\ i > 0 /\ i = perm[Len(vins) + 1] + 1
              /\ scn.rt > 0
    IN \/ /\ ok /\ vins' = Append(vins, i) /\ ph' = "VINS" /\ Answer(a, "ack")
          /\ UNCHANGED <<scn, sess, regs, perm, outs, cov, sg, old>>
       \/ ~ok /\ Refuse(a)

(* AllIn: every registered input has been hashed *)
AllIn == Step([m |-> "allin"], ph = "VINS" /\ Len(vins) = nIn, "ALLIN")

(* SetOutput: d is the destination presented (0: fabricated).  With host-side
   range proofs and masks chosen in advance, the proof comes with the last
   output of the batch (variants "rsig", "badrsig"). *)
OutVariants == {"ok"} \cup (IF Offload /\ ~Det THEN {"rsig"} ELSE {})
               \cup (IF "out" \in Focus THEN {"amount", "addr", "view", "sub", "mac", "othermac", "xrsig"} ELSE {})
               \cup (IF "bp" \in Focus THEN {"badrsig", "xrsig"} ELSE {})
WantRsig(d) == Offload /\ ~Det /\ LastInBatch(d)
OutReady(d) == /\ ph \in {"ALLIN", "OUT"} /\ Len(vins) = nIn
               /\ Len(outs) < nOut /\ d = Len(outs) + 1 /\ ~Awaiting
SetOutput(d, v) ==
    LET a == [m |-> "out", d |-> d, v |-> v]
        ok == /\ OutReady(d)
              /\ \/ v = "ok" /\ ~WantRsig(d)
                 \/ v = "rsig" /\ WantRsig(d)
        \* a proof that nobody asked for: ignored or refused, never counted
        loose == OutReady(d) /\ v \in {"xrsig", "badrsig"} /\ Offload /\ Det /\ LastInBatch(d)
        acc(c) == /\ outs' = Append(outs, d)
                  /\ cov' = c
                  /\ ph' = "OUT" /\ Answer(a, "ack")
                  /\ UNCHANGED <<scn, sess, regs, perm, vins, sg, old>>
    IN \/ ok /\ acc(IF (~Offload \/ v = "rsig") /\ LastInBatch(d) THEN d ELSE cov)
       \/ loose /\ acc(cov)
       \/ ~ok /\ Refuse(a)

(* The separate message that carries a range proof made by the host *)
BPVariants == IF "bp" \in Focus THEN {"ok", "bad", "none", "old", "garbage", "masked"} ELSE {"ok"}
OffBP(v) ==
    LET a == [m |-> "bp", v |-> v]
        ok == ph = "OUT" /\ Awaiting /\ v = "ok"
    IN \/ /\ ok /\ cov' = Len(outs) /\ ph' = "OUT" /\ Answer(a, "ack")
          /\ UNCHANGED <<scn, sess, regs, perm, vins, outs, sg, old>>
       \/ ~ok /\ Refuse(a)

(* AllOut: everything to be signed is known now *)
AllOut ==
    Step([m |-> "allout"],
         /\ ph = "OUT" /\ Len(outs) = nOut /\ ~Awaiting
         /\ InSum - OutSum = scn.fee /\ scn.fee >= 0,
         "MSG")

(* Sign: i is the registered input presented *)
SignVariants == IF "sign" \in Focus
                THEN {"ok", "src", "amount", "ring", "mask", "real", "vini", "mac", "pout", "poutmac", "xpout", "xcomm", "alpha", "spend", "xalpha", "xspend"}
                ELSE {"ok"}
Corrected(i) == Det /\ i = nIn   \* pseudo output recomputed by the device
SignInput(i, v) ==
    LET a == [m |-> "sign", i |-> i, v |-> v]
        base == /\ ph \in {"MSG", "SIGN"} /\ Len(sg) < nIn
                /\ i > 0 /\ i = perm[Len(sg) + 1] + 1
                /\ regs[i].v = "ok"
        ok == base /\ v = "ok"
        \* the host's copy of the pseudo output is not used for this input
        loose == base /\ v \in {"pout", "poutmac", "xpout"} /\ Corrected(i)
    IN \/ /\ ok \/ loose
          /\ sg' = Append(sg, i)
          /\ ph' = IF Len(sg) + 1 = nIn THEN "SIGDONE" ELSE "SIGN"
          /\ Answer(a, "ack")
          /\ UNCHANGED <<scn, sess, regs, perm, vins, outs, cov, old>>
       \/ ~ok /\ Refuse(a)

Final == LET a == [m |-> "final"] IN Step(a, ph = "SIGDONE", "FINAL")

(* Messages replayed from an earlier session of the same device *)
Stale ==
    /\ "sess" \in Focus /\ old # NoOld
    /\ \/ \E i \in 1..Len(old.regs) : Refuse([m |-> "vini", i |-> i, v |-> "stale"])
       \/ \E i \in 1..Len(old.regs) : Refuse([m |-> "sign", i |-> i, v |-> "stale"])
       \/ \E d \in 1..nOut : Refuse([m |-> "out", d |-> d, v |-> "stale"])
       \* everything current but the secrets of the old session
       \/ \E i \in 1..Len(old.regs) : i <= Len(regs) /\ Refuse([m |-> "sign", i |-> i, v |-> "staleenc"])

-----------------------------------------------------------------------------
Pinned == IF sess > 0 THEN 0..nOut ELSE {0}
Items  == 0..Len(regs)
\* which inputs the host offers
Offers == IF "order" \in Focus \/ "input" \in Focus THEN 1..Len(scn.src)
          ELSE {IF Len(regs) < Len(scn.src) THEN Len(regs) + 1 ELSE 1}
OutOffers == IF "far" \in Focus /\ sess > 0
             THEN {k \in 1..nOut : \E b \in {-16, -8, -1, 0, 1, 8, 16} : k = Len(outs) + 1 + b}
             ELSE IF "order" \in Focus \/ "out" \in Focus THEN Pinned
             ELSE {IF sess > 0 /\ Len(outs) < nOut THEN Len(outs) + 1 ELSE 0}
Due1(n) == IF n < Len(perm) /\ Len(regs) = nIn /\ IsPerm(perm) THEN perm[n + 1] + 1 ELSE 0
\* indices that a sloppy encoding of the index could confuse with the due one
Far(i) == {i} \cup {k \in 1..Len(regs) : \E b \in {1, 8, 16, 32, 64, 127, 128} : k = i + b \/ k = i - b}
ItemOffers(n) == IF "far" \in Focus THEN Far(Due1(n)) ELSE
                 IF "order" \in Focus \/ "vini" \in Focus \/ "sign" \in Focus \/ "perm" \in Focus
                 THEN Items
                 ELSE {Due1(n)}

\* Without the "order" kind, the host sends a type of message only when due
Due(p) == "order" \in Focus \/ ph \in p \/ (ph = "DEAD" /\ "dead" \in Focus)

Next ==
    \/ InitMsg
    \/ Due({"INP"}) /\ \E j \in Offers, v \in InVariants : SetInput(j, v)
    \/ Due({"INPDONE"}) /\ \E p \in PermCands : SetPerm(p)
    \/ Due({"PERM", "VINS"}) /\ \E i \in ItemOffers(Len(vins)), v \in ViniVariants : InputVini(i, v)
    \/ Due({"VINS"}) /\ AllIn
    \/ Due({"ALLIN", "OUT"}) /\ \E d \in OutOffers, v \in OutVariants : SetOutput(d, v)
    \/ Due({"OUT"}) /\ (Offload \/ "order" \in Focus) /\ \E v \in BPVariants : OffBP(v)
    \/ Due({"OUT"}) /\ AllOut
    \/ Due({"MSG", "SIGN"}) /\ \E i \in ItemOffers(Len(sg)), v \in SignVariants : SignInput(i, v)
    \/ Due({"SIGDONE"}) /\ Final
    \/ Stale

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties.  They speak about the state only, so they hold for the whole
   reachable state space under every deviation above.                       *)
Alive == ph \notin {"NONE", "DEAD", "REJ"}
TypeOK == /\ ph \in {"NONE", "REJ", "DEAD", "INP", "INPDONE", "PERM", "VINS", "ALLIN",
                     "OUT", "MSG", "SIGN", "SIGDONE", "FINAL"}
          /\ sess \in 0..MaxSess /\ cov \in 0..nOut

\* S01: a signature only after every earlier step is complete
OrderInv ==
    /\ sg # <<>> => Len(regs) = nIn /\ Len(vins) = nIn /\ Len(outs) = nOut /\ IsPerm(perm)
    /\ outs # <<>> => Len(vins) = nIn
    /\ vins # <<>> => Len(regs) = nIn
    /\ Len(regs) <= nIn /\ Len(outs) <= nOut /\ Len(vins) <= nIn /\ Len(sg) <= nIn
\* S02: nothing is done with keys before the user has agreed
ConfirmInv == regs # <<>> => scn.approve /\ InitOK(scn)
\* S04: only what was announced, in the announced order
OutputsInv == \A d \in 1..Len(outs) : outs[d] = d
\* S05: the inputs hashed are the inputs signed, each exactly once
InputsInv == /\ \A k \in 1..Len(sg) : sg[k] = vins[k]
             /\ Cardinality(SeqRange(sg)) = Len(sg)
             /\ ph = "FINAL" => SeqRange(sg) = 1..nIn
             /\ \A k \in 1..Len(sg) : regs[sg[k]].v = "ok"
\* S06: what is signed conserves value (every signed input has its true amount)
RealIn == LET f(i) == scn.src[regs[i].j].amt IN SumF(f, Len(regs))
ValueInv == /\ sg # <<>> => InSum = OutSum + scn.fee
            /\ ph = "FINAL" => RealIn = OutSum + scn.fee
\* S07: what the device treats as change is our own address
ChangeInv == regs # <<>> => \A d \in 1..nOut :
                (scn.chg.to # "none" /\ scn.dst[d].to = scn.chg.to) => scn.dst[d].to = OwnAddr(scn)
\* S08: every output is covered by an accepted range proof before a signature
CoverInv == /\ sg # <<>> => cov = nOut
            /\ cov <= Len(outs)
SafetyInv == TypeOK /\ OrderInv /\ ConfirmInv /\ OutputsInv /\ InputsInv /\ ValueInv /\ ChangeInv /\ CoverInv

\* S03: a refused message is the end of the session
DeadProp == [][(ph = "DEAD" \/ ph = "REJ") => (act'.m = "init" \/ (ph' = "DEAD" /\ resp' = "fail"))]_vars
FreshProp == [][act'.m = "init" => regs' = <<>> /\ outs' = <<>> /\ sg' = <<>>]_vars

-----------------------------------------------------------------------------
(* Export of the transition relation for the replay into the code *)
St(r, a, b, c, d, e, f, g, h, i) ==
    [ph |-> a, se |-> b, rg |-> c, pm |-> d, vi |-> e, ou |-> f, cv |-> g, sg |-> h, ol |-> i.n]
Emit == PrintT("@E " \o ToJson(<<scn.id,
          <<ph, sess, regs, perm, vins, outs, cov, sg, old>>,
          act', resp',
          <<ph', sess', regs', perm', vins', outs', cov', sg', old'>> >>))
EmitScn == PrintT("@S " \o ToJson([id |-> scn.id, scn |-> scn, pred |-> Pred(scn)]))
InitEmit == Init /\ EmitScn
=============================================================================
