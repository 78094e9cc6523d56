------------------------------ MODULE HostSign ------------------------------
(***************************************************************************)
(* The honest host composed with the device of TsxSign: for every          *)
(* well-formed request the session is never refused and always reaches its *)
(* end, whatever order the key images impose on the inputs.                *)
(*                                                                         *)
(* The host also chooses the kind of range proof and how they are batched. *)
(***************************************************************************)
EXTENDS TsxSign

\* --- what the host announces about range proofs
RsigType(no) == IF no > 16 THEN 2 ELSE 3
RECURSIVE Pow2Upto(_, _)
Pow2Upto(b, room) == IF b * 2 <= room /\ b * 2 <= 16 THEN Pow2Upto(b * 2, room) ELSE b
RECURSIVE MultiBatches(_)
MultiBatches(left) == IF left = 0 THEN <<>>
                      ELSE LET b == Pow2Upto(1, left) IN <<b>> \o MultiBatches(left - b)
Batches(no) == IF RsigType(no) = 3 THEN <<no>> ELSE MultiBatches(no)

BPV(hf) == IF hf >= 10 THEN 2 ELSE 1

Host(id, srcs, dst, chg, fee, hf, cv) ==
    [Base EXCEPT !.id = id, !.nIn = Len(srcs), !.src = srcs, !.dst = dst, !.chg = chg, !.fee = fee,
                 !.rt = RsigType(Len(dst)), !.grp = Batches(Len(dst)), !.cv = cv, !.bp = BPV(hf)]

InTotal(srcs) == LET f(i) == srcs[i].amt IN SumF(f, Len(srcs))
OutTotal(d)   == LET f(i) == d[i].amt IN SumF(f, Len(d))

WellFormed(s) == /\ InitOK(s) /\ s.chg.to # "none"     \* the wallet always names its change address
                 /\ \A j \in 1..s.nIn : Spendable(s, j)
                 /\ InTotal(s.src) = OutTotal(s.dst) + s.fee

Own(n, kinds) == [i \in 1..n |-> S(1000 * i, kinds[1 + (i % Len(kinds))])]

\* n outputs: payments to the listed addresses in turn, change at position c
Pay(total, n, tos, c) ==
    LET payidx(i) == IF i < c THEN i ELSE i - 1
        pays == [i \in 1..n |-> IF i = c THEN D(0, "me") ELSE D(10 + i, tos[1 + ((payidx(i) - 1) % Len(tos))])]
        rest == total - OutTotal(pays)
    IN [pays EXCEPT ![c] = D(rest, "me")]
HPay(id, ni, no, kinds, tos, c, hf, cv) ==
    LET srcs == Own(ni, kinds)
        d == Pay(InTotal(srcs) - 7, no, tos, c)
    IN Host(id \o ToString(<<ni, no, kinds, tos, c, hf, cv>>), srcs, d, d[c], 7, hf, cv)

\* protocol version, client version (client version 0 is only for protocol 9)
Proto == {<<10, 1>>, <<9, 1>>, <<9, 0>>}
Mixes == {<<"bob">>, <<"bobs">>, <<"bob", "ann">>, <<"bobs", "ann">>, <<"bobs", "bobs2">>, <<"bobs", "anns">>,
          <<"bob", "bobs">>, <<"me01">>, <<"me01", "bob">>, <<"me", "bob">>, <<"me">>, <<"bob", "bob", "anns">>}

HostFam(f) ==
  CASE f = "grid"  -> {HPay("grid", ni, no, <<"me">>, <<"bob">>, no, p[1], p[2]) : ni \in 1..3, no \in 1..4, p \in Proto}
    [] f = "gridq" -> {HPay("grid", ni, no, <<"me">>, <<"bob">>, no, p[1], p[2]) : ni \in {1, 3}, no \in 1..3, p \in Proto}
    [] f = "subs"  -> {HPay("subs", ni, 2, k, <<"bob">>, c, p[1], p[2]) : ni \in 1..3, c \in 1..2, p \in {<<10, 1>>, <<9, 0>>},
                          k \in {<<"me01">>, <<"me", "me01">>}}
    [] f = "mix"   -> {HPay("mix", 1, no, <<"me">>, t, c, p[1], p[2]) : no \in 2..4, t \in Mixes, c \in 1..2, p \in {<<10, 1>>}}
                      \cup {HPay("mix", 1, 4, <<"me">>, t, 4, p[1], p[2]) : t \in Mixes, p \in {<<9, 1>>, <<9, 0>>}}
    [] f = "mixq"  -> {HPay("mix", 1, no, <<"me">>, t, c, 10, 1) : no \in {2, 4}, t \in Mixes, c \in {1}}
                      \cup {HPay("mix", 1, 3, <<"me">>, t, 3, 9, 0) : t \in Mixes}
    [] f = "pids"  -> {[HPay("pid" \o pd, 1, no, <<"me">>, t, no, p[1], p[2]) EXCEPT !.pid = pd] :
                          pd \in {"short", "long"}, no \in 2..3, t \in {<<"bob">>, <<"bobs">>, <<"ann", "bob">>, <<"me01">>, <<"me">>},
                          p \in {<<10, 1>>, <<9, 0>>}}
    [] f = "rings" -> {[HPay("ring" \o ToString(<<r, k>>), 2, 2, <<"me", "me01">>, <<"bob">>, 2, p[1], p[2]) EXCEPT !.ring = r, !.real = k] :
                          r \in {2, 3, 5, 11}, k \in 1..11, p \in {<<10, 1>>, <<9, 0>>}}
    [] f = "acct"  -> {LET srcs == Own(ni, <<"me1">>) IN
                       [Host("acct" \o ToString(<<ni, t, p>>), srcs, <<D(500, t), D(InTotal(srcs) - 507, "me1")>>,
                            D(InTotal(srcs) - 507, "me1"), 7, p[1], p[2]) EXCEPT !.acct = 1] : ni \in 1..2, t \in {"bob", "bobs", "me", "me01"}, p \in {<<10, 1>>, <<9, 0>>}}
    [] f = "sweep" -> {Host("sweep" \o ToString(<<t, z, c, p>>), Own(2, <<"me">>),
                            IF z = 1 THEN <<D(2993, t), D(0, "ann")>> ELSE <<D(0, "ann"), D(2993, t)>>, D(0, c), 7, p[1], p[2]) :
                          t \in {"bob", "bobs", "me", "me01"}, z \in 1..2, c \in {"me"}, p \in {<<10, 1>>, <<9, 0>>}}
    [] f = "big"   -> {HPay("big", 1, no, <<"me">>, <<"bob", "anns">>, 2, p[1], p[2]) : no \in {8, 16, 17, 20}, p \in {<<10, 1>>}}
                      \cup {HPay("big", 1, no, <<"me">>, <<"bob">>, 2, p[1], p[2]) : no \in {5, 17, 19}, p \in {<<9, 1>>, <<9, 0>>}}
                      \cup {HPay("big", ni, 2, <<"me", "me01">>, <<"bob">>, 2, p[1], p[2]) : ni \in {6, 12}, p \in {<<10, 1>>}}
    [] f = "bigq"  -> {HPay("big", 1, 17, <<"me">>, <<"bob", "anns">>, 2, 10, 1), HPay("big", 1, 5, <<"me">>, <<"bob", "anns">>, 2, 9, 0),
                       HPay("big", 6, 2, <<"me", "me01">>, <<"bob">>, 2, 10, 1)}
    [] f = "fault" -> {HPay("fault", 2, 2, <<"me">>, <<"bob">>, 2, p[1], p[2]) : p \in {<<10, 1>>, <<9, 0>>}}
                      \cup {HPay("fault", 1, 3, <<"me">>, <<"bobs", "ann">>, 3, p[1], p[2]) : p \in {<<10, 1>>, <<9, 1>>}}
    [] f = "faultx" -> {HPay("fault", 3, 1, <<"me">>, <<"bob">>, 1, p[1], p[2]) : p \in {<<10, 1>>, <<9, 0>>}}
                      \cup {HPay("fault", 1, 5, <<"me">>, <<"bobs", "ann">>, 3, p[1], p[2]) : p \in Proto}
    [] f = "alike" -> {[HPay("alike" \o ToString(<<k, up>>), ni, 2, <<"me">>, <<"bob">>, 2, p[1], p[2]) EXCEPT !.alike = k, !.real = up] :
                          ni \in 2..3, k \in 1..2, up \in 1..2, p \in {<<10, 1>>, <<9, 0>>}}
    [] f = "tiny"  -> {HPay("tiny", 1, 1, <<"me">>, <<"bob">>, 1, 10, 1), HPay("tiny", 2, 2, <<"me">>, <<"bob">>, 2, 9, 0)}

Ringed(s) == s.real <= s.ring \/ s.ring = 0
HostScenarios(f) == {s \in HostFam(f) : WellFormed(s) /\ Ringed(s)}

HInit == /\ scn \in HostScenarios(Fam)
         /\ ph = "NONE" /\ sess = 0
         /\ regs = <<>> /\ perm = <<>> /\ vins = <<>> /\ outs = <<>>
         /\ cov = 0 /\ sg = <<>> /\ old = NoOld
         /\ act = [m |-> "-"] /\ resp = "-"

\* the one message the honest host sends next (the permutation depends on key images)
HNextP(perms) ==
    \/ sess = 0 /\ InitMsg
    \/ ph = "INP" /\ SetInput(Len(regs) + 1, "ok")
    \/ ph = "INPDONE" /\ \E p \in perms : IsPerm(p) /\ SetPerm(p)
    \/ ph \in {"PERM", "VINS"} /\ Len(vins) < nIn /\ InputVini(perm[Len(vins) + 1] + 1, "ok")
    \/ ph = "VINS" /\ Len(vins) = nIn /\ AllIn
    \/ ph \in {"ALLIN", "OUT"} /\ ~Awaiting /\ Len(outs) < nOut
          /\ SetOutput(Len(outs) + 1, IF WantRsig(Len(outs) + 1) THEN "rsig" ELSE "ok")
    \/ ph = "OUT" /\ Awaiting /\ OffBP("ok")
    \/ ph = "OUT" /\ ~Awaiting /\ Len(outs) = nOut /\ AllOut
    \/ ph \in {"MSG", "SIGN"} /\ Len(sg) < nIn /\ SignInput(perm[Len(sg) + 1] + 1, "ok")
    \/ ph = "SIGDONE" /\ Final

\* all orders for a few inputs; for many inputs some
HPerms == IF nIn <= 4 THEN [1..nIn -> 0..(nIn - 1)]
          ELSE {[i \in 1..nIn |-> i - 1], [i \in 1..nIn |-> nIn - i], [i \in 1..nIn |-> i % nIn]}
HNext == HNextP(HPerms)
\* the next message, when the permutation is known from a recording
HNextT(a) == HNextP(IF a.m = "perm" THEN {a.p} ELSE {})

HSpec == HInit /\ [][HNext]_vars /\ WF_vars(HNext)

\* H01: the honest pair is never refused and finishes
HonestInv == resp # "fail"
Finishes  == <>(ph = "FINAL")

HEmit == PrintT("@S " \o ToJson([id |-> scn.id, scn |-> scn, pred |-> Pred(scn)]))
HInitEmit == HInit /\ HEmit
=============================================================================
