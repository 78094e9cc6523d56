------------------------------- MODULE TsxScn -------------------------------
(***************************************************************************)
(* Transactions a host may announce, and what the device must derive from  *)
(* the announcement: which address is change, which payment id field the   *)
(* transaction gets, which transaction keys it needs, how range proofs are *)
(* grouped.                                                                *)
(*                                                                         *)
(* Addresses are names: me (main address), me1 = own (1,0), me01 = own     *)
(* (0,1), bob, ann (foreign main addresses), bobs, bobs2, anns (foreign    *)
(* subaddresses), nil (the all-zero address), mev, mew (foreign addresses  *)
(* that share the spend or the view key with ours).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SubNames == {"me1", "me01", "bobs", "bobs2", "anns"}
IsSub(a) == a \in SubNames
OwnAddr(s) == IF s.acct = 0 THEN "me" ELSE "me1"

Offloads(s) == s.rt > 0 /\ Len(s.dst) > 2
DetMasks(s) == s.bp >= 2 \/ s.cv > 0

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

\* range proof groups partition the outputs
GroupOK(s) == /\ \A i \in 1..Len(s.grp) : s.grp[i] > 0
              /\ SumSeq(s.grp) = Len(s.dst)

\* --- change: an announced change address that is paid must be our own
ChangePaid(s) == \E d \in 1..Len(s.dst) : s.dst[d].to = s.chg.to
ChangeOK(s) ==
    \/ s.chg.to = "none"
    \/ s.chg.amt = 0 /\ Len(s.dst) = 2 /\ ~ChangePaid(s)      \* sweep with a dummy output
    \/ ChangePaid(s) /\ s.chg.to = OwnAddr(s)

\* --- foreign destinations: the ones that carry money and are not change
Foreign(s) == SelectSeq(s.dst, LAMBDA x : x.amt > 0 /\ x.to # s.chg.to)
RECURSIVE Runs(_, _)
Runs(q, prev) == IF q = <<>> THEN 0
                 ELSE (IF Head(q).to = prev THEN 0 ELSE 1) + Runs(Tail(q), Head(q).to)
NForeign(s) == Runs(Foreign(s), "-")

\* --- payment id field of the transaction
PidField(s) ==
    CASE s.pid = "none"  -> IF NForeign(s) <= 1 THEN "enc" ELSE "none"
      [] s.pid = "short" -> IF NForeign(s) <= 1 THEN "enc" ELSE "refused"
      [] s.pid = "long"  -> "plain"
      [] OTHER           -> "refused"
\* for whom it is encrypted
PidFor(s) == IF NForeign(s) = 0 THEN s.chg.to ELSE Foreign(s)[Len(Foreign(s))].to
PidOK(s) == /\ PidField(s) # "refused"
            /\ PidField(s) = "enc" => PidFor(s) \notin {"none", "nil"}

\* --- transaction keys (classify_addresses)
NonChange(s) == {s.dst[d].to : d \in {k \in 1..Len(s.dst) : s.dst[k].to # s.chg.to}}
NSub(s) == Cardinality({a \in NonChange(s) : IsSub(a)})
NStd(s) == Cardinality({a \in NonChange(s) : ~IsSub(a)})
SingleSub(s) == NStd(s) = 0 /\ NSub(s) = 1
Additional(s) == NSub(s) > 0 /\ (NStd(s) > 0 \/ NSub(s) > 1)

Known(s) == s.bp \in {1, 2}
InitOK(s) == Known(s) /\ ChangeOK(s) /\ PidOK(s) /\ GroupOK(s)
\* announcements the device may refuse at once or at a later step
InitLoose(s) == s.rt = 0 \/ s.nIn = 0 \/ s.nIn > Len(s.src)

\* an output of ours that the announced subaddress indices cover
Spendable(s, j) == LET x == s.src[j] IN
    \/ x.own = "me" /\ s.acct = 0
    \/ x.own = "me1" /\ s.acct = 1
    \/ x.own = "me01" /\ s.acct = 0 /\ s.subs

Pred(s) == [pidfield |-> PidField(s), pidfor |-> IF PidField(s) = "enc" THEN PidFor(s) ELSE "-",
            single |-> SingleSub(s), additional |-> Additional(s),
            offload |-> Offloads(s), det |-> DetMasks(s), initok |-> InitOK(s)]

-----------------------------------------------------------------------------
D(a, t) == [amt |-> a, to |-> t]
S(a, o) == [amt |-> a, own |-> o]
Base == [id |-> "-", nIn |-> 1, src |-> <<S(1000, "me")>>, dst |-> <<D(400, "bob"), D(593, "me")>>,
         chg |-> D(593, "me"), fee |-> 7, grp |-> <<2>>, rt |-> 3, cv |-> 1, bp |-> 2,
         pid |-> "none", acct |-> 0, subs |-> TRUE, approve |-> TRUE,
         ring |-> 0, real |-> 0,          \* 0: any ring size, any real position
         alike |-> 0]                     \* leading bytes that the key images of the first two inputs share

Srcs3 == <<S(1000, "me"), S(2000, "me"), S(4000, "me01"), S(8000, "me")>>
RECURSIVE SrcSum(_)
SrcSum(n) == IF n = 0 THEN 0 ELSE Srcs3[n].amt + SrcSum(n - 1)

\* n outputs to bob and the rest to change
Outs(total, n) == [i \in 1..n |-> IF i < n THEN D(10 * i, "bob")
                                  ELSE D(total - 5 * n * (n - 1), "me")]
Shape(ni, no, cv, bp, rt, g) ==
    LET tot == SrcSum(ni) - 7
        ds == Outs(tot, no)
    IN [Base EXCEPT !.id = "sh" \o ToString(<<ni, no, cv, bp, rt, g>>),
                    !.nIn = ni, !.src = Srcs3, !.dst = ds, !.chg = ds[no],
                    !.cv = cv, !.bp = bp, !.rt = rt, !.grp = g]
Vers == {<<0, 1>>, <<1, 1>>, <<0, 2>>, <<1, 2>>}   \* (client version, range proof version)

Change(id, dst, chg) == [Base EXCEPT !.id = "chg-" \o id, !.dst = dst, !.chg = chg, !.grp = <<Len(dst)>>]

\* all ways to write n as an ordered sum of groups
RECURSIVE Comps(_)
Comps(n) == IF n = 0 THEN {<<>>}
            ELSE UNION {{<<k>> \o c : c \in Comps(n - k)} : k \in 1..n}

Scenarios(f) ==
  CASE f = "core"  -> {Shape(ni, no, v[1], v[2], 3, <<no>>) : ni \in 1..2, no \in 1..2, v \in Vers}
    [] f = "small" -> {Shape(1, 1, 1, 2, 3, <<1>>), Shape(2, 2, 1, 2, 3, <<2>>), Shape(1, 3, 1, 2, 3, <<3>>)}
    [] f = "one"   -> {Shape(1, 1, 1, 2, 3, <<1>>)}
    [] f = "pair"  -> {Shape(2, 1, 1, 2, 3, <<1>>), Shape(2, 2, 0, 1, 3, <<2>>)}
    [] f = "two1"  -> {Shape(2, 1, 1, 2, 3, <<1>>)}
    [] f = "infl"  -> {Shape(1, 1, 1, 2, 3, <<1>>), Shape(2, 1, 0, 1, 3, <<1>>)}
    [] f = "off1"  -> {Shape(1, 3, 1, 2, 2, <<2, 1>>), Shape(1, 3, 0, 1, 2, <<1, 2>>)}
    [] f = "outs"  -> {Shape(1, no, v[1], v[2], 3, <<no>>) : no \in 1..4, v \in {<<1, 2>>, <<0, 1>>}}
    [] f = "show"  -> {[Shape(ni, no, 1, 2, 3, <<no>>) EXCEPT !.id = "show" \o ToString(<<ni, no, p, a, sb, ap>>), !.pid = p,
                          !.src = IF a = 0 THEN Srcs3 ELSE <<S(1000, "me1"), S(2000, "me1")>>, !.acct = a, !.subs = sb, !.approve = ap,
                          !.dst = [i \in 1..no |-> IF i < no THEN D(10 * i, "bob") ELSE D(SrcSum(ni) - 7 - 5 * no * (no - 1), IF a = 0 THEN "me" ELSE "me1")],
                          !.chg = D(SrcSum(ni) - 7 - 5 * no * (no - 1), IF a = 0 THEN "me" ELSE "me1")] :
                          ni \in 1..2, no \in 2..3, p \in {"none", "short", "long"}, a \in 0..1, sb \in BOOLEAN, ap \in BOOLEAN}
    [] f = "mout"  -> {[x EXCEPT !.id = "mout", !.dst = [i \in 1..18 |-> D(IF i < 18 THEN 10 ELSE 4823, IF i < 18 THEN "bob" ELSE "me")],
                          !.grp = <<8, 8, 2>>, !.src = <<S(5000, "me")>>, !.chg = D(4823, "me")] : x \in {Shape(1, 3, 1, 2, 2, <<3>>)}}
    [] f = "three" -> {Shape(3, 1, v[1], v[2], 3, <<1>>) : v \in {<<1, 2>>, <<0, 1>>}}
    [] f = "two"   -> {Shape(2, 2, 1, 2, 3, <<2>>)}
    [] f = "four"  -> {Shape(4, 1, 1, 2, 3, <<1>>)}
    [] f = "wide"  -> {Shape(1, no, v[1], v[2], 3, <<no>>) : no \in 3..4, v \in Vers}
    [] f = "off"   -> {Shape(1, 3, v[1], v[2], 2, g) : v \in Vers, g \in Comps(3)}
    [] f = "off4"  -> {Shape(2, 4, v[1], v[2], 2, g) : v \in {<<0, 1>>, <<1, 2>>}, g \in Comps(4)}
    [] f = "off5"  -> {Shape(1, 5, v[1], v[2], 2, g) : v \in Vers, g \in {<<4, 1>>, <<2, 2, 1>>, <<1, 4>>, <<1, 1, 1, 1, 1>>}}
    [] f = "grp"   -> {Shape(1, 3, v[1], v[2], 2, g) : v \in Vers,
                          g \in {<<>>, <<1>>, <<2>>, <<1, 1>>, <<4>>, <<2, 2>>, <<1, 1, 2>>, <<0, 3>>, <<3, 0>>, <<17>>, <<3, 3>>, <<2, 0, 1>>}}
                      \cup {Shape(1, 2, v[1], v[2], 3, g) : v \in Vers,
                          g \in {<<>>, <<1>>, <<3>>, <<1, 2>>, <<0, 2>>, <<2, 2>>, <<16>>}}
                      \cup {Shape(1, 1, v[1], v[2], 3, g) : v \in {<<1, 2>>}, g \in {<<>>, <<2>>, <<0, 1>>, <<0>>}}
    [] f = "many"  -> {[Base EXCEPT !.id = "many" \o ToString(n), !.nIn = n, !.grp = <<1>>,
                          !.src = [i \in 1..n |-> S(10 + i, "me")],
                          !.dst = <<D(10 * n + (n * (n + 1)) \div 2 - 7, "me")>>,
                          !.chg = D(10 * n + (n * (n + 1)) \div 2 - 7, "me")] : n \in {130}}
    [] f = "manyout" -> {[Shape(1, 19, v[1], v[2], 2, <<19>>) EXCEPT !.id = "manyout" \o ToString(v),
                          !.src = <<S(5000, "me")>>,
                          !.dst = [i \in 1..19 |-> D(IF i < 19 THEN 10 ELSE 4813, IF i < 19 THEN "bob" ELSE "me")],
                          !.chg = D(4813, "me")] : v \in {<<1, 2>>, <<0, 1>>}}
    [] f = "wrap"  -> {[Base EXCEPT !.id = "wrap" \o ToString(<<k, v>>), !.cv = v[1], !.bp = v[2],
                          !.dst = <<D(8192 * k + 400, "bob"), D(8192 * k + 593, "me")>>,
                          !.chg = D(8192 * k + 593, "me")] : k \in {1}, v \in {<<1, 2>>, <<0, 1>>}}
                      \* the fee makes up for outputs that exceed the inputs, modulo 2^64 and 2^32
                      \cup {[Shape(2, no, v[1], v[2], 3, <<no>>) EXCEPT !.id = "wrapfee" \o ToString(<<no, v, fee>>), !.fee = fee,
                              !.dst = [i \in 1..no |-> IF i < no THEN D(10, "bob") ELSE D(3400, "me")], !.chg = D(3400, "me")] :
                              no \in {1, 2}, v \in {<<1, 2>>, <<0, 1>>}, fee \in {16384 - 400, 16384 - 410, 8192 - 400, 16383}}
    [] f = "vers"  -> {[Shape(1, 2, cv, bp, rt, <<2>>) EXCEPT !.id = "ver" \o ToString(<<cv, bp, rt>>)] :
                          cv \in 0..2, bp \in 1..3, rt \in {0, 2, 3}}
    [] f = "fee"   -> {[Shape(ni, no, v[1], v[2], 2, [k \in 1..no |-> 1]) EXCEPT !.id = "fee" \o ToString(<<ni, no, v, fee>>), !.fee = fee] :
                          ni \in 1..2, no \in {1, 2, 3}, v \in {<<1, 2>>, <<0, 1>>}, fee \in {0, 6, 7, 8, 1007}}
                      \cup {[Base EXCEPT !.id = "over", !.dst = <<D(900, "bob"), D(593, "me")>>, !.fee = 0],
                            [Base EXCEPT !.id = "nofee", !.dst = <<D(407, "bob"), D(593, "me")>>, !.fee = 0]}
    [] f = "rej"   -> {[x EXCEPT !.approve = FALSE, !.id = "rej" \o x.id] :
                          x \in {Shape(1, 1, 1, 2, 3, <<1>>), Shape(2, 2, 0, 1, 3, <<2>>), Shape(1, 3, 1, 2, 3, <<3>>)}}
    [] f = "chg"   -> {
         Change("own",      <<D(400, "bob"), D(593, "me")>>, D(593, "me")),
         Change("first",    <<D(593, "me"), D(400, "bob")>>, D(593, "me")),
         Change("foreign",  <<D(400, "bob"), D(593, "ann")>>, D(593, "ann")),
         Change("foreign2", <<D(400, "bob"), D(593, "me")>>, D(400, "bob")),
         Change("missing",  <<D(400, "bob"), D(593, "ann")>>, D(593, "me")),
         Change("missing1", <<D(993, "bob")>>, D(0, "me")),
         Change("missing3", <<D(400, "bob"), D(500, "ann"), D(93, "bob")>>, D(0, "me")),
         Change("amount",   <<D(400, "bob"), D(593, "me")>>, D(590, "me")),
         \* addresses that share the spend or the view key with our own
         Change("mev",      <<D(400, "bob"), D(593, "mev")>>, D(593, "mev")),
         Change("mew",      <<D(400, "bob"), D(593, "mew")>>, D(593, "mew")),
         Change("mevpay",   <<D(400, "mev"), D(593, "me")>>, D(593, "me")),
         Change("mewpay",   <<D(400, "mew"), D(200, "mev"), D(393, "me")>>, D(393, "me")),
         Change("mevswp",   <<D(993, "bob"), D(0, "mev")>>, D(0, "me")),
         Change("mewswp",   <<D(993, "mew"), D(0, "ann")>>, D(0, "me")),
         Change("none",     <<D(400, "bob"), D(593, "me")>>, D(0, "none")),
         Change("none1",    <<D(993, "bob")>>, D(0, "none")),
         Change("sweep",    <<D(993, "bob"), D(0, "ann")>>, D(0, "me")),
         Change("sweepnil", <<D(993, "bob"), D(0, "ann")>>, D(0, "nil")),
         Change("sweeppay", <<D(993, "bob"), D(0, "ann")>>, D(0, "bob")),
         Change("sweepdum", <<D(993, "bob"), D(0, "ann")>>, D(0, "ann")),
         Change("sweepown", <<D(993, "me"), D(0, "ann")>>, D(0, "me")),
         Change("sweepsub", <<D(993, "bobs"), D(0, "ann")>>, D(0, "bobs")),
         Change("sub01",    <<D(400, "bob"), D(593, "me01")>>, D(593, "me01")),
         Change("self",     <<D(400, "me"), D(593, "me")>>, D(593, "me")),
         Change("selfsub",  <<D(400, "me01"), D(593, "me")>>, D(593, "me")),
         Change("dup",      <<D(400, "me"), D(400, "bob"), D(193, "me")>>, D(193, "me")),
         Change("three",    <<D(400, "bob"), D(200, "ann"), D(393, "me")>>, D(393, "me")),
         Change("threef",   <<D(400, "bob"), D(200, "ann"), D(393, "me")>>, D(200, "ann")) }
      \cup {[x EXCEPT !.acct = 1, !.src = <<S(1000, "me1")>>, !.id = @ \o "-acct1"] : x \in {
         Change("own",      <<D(400, "bob"), D(593, "me1")>>, D(593, "me1")),
         Change("main",     <<D(400, "bob"), D(593, "me")>>, D(593, "me")) }}
    [] f = "pid"   -> {[x EXCEPT !.pid = p, !.id = "pid-" \o p \o "-" \o @] : p \in {"none", "short", "long", "odd"}, x \in {
         Change("one",      <<D(400, "bob"), D(593, "me")>>, D(593, "me")),
         Change("sub",      <<D(400, "bobs"), D(593, "me")>>, D(593, "me")),
         Change("two",      <<D(400, "bob"), D(200, "ann"), D(393, "me")>>, D(393, "me")),
         Change("same",     <<D(400, "bob"), D(200, "bob"), D(393, "me")>>, D(393, "me")),
         Change("split",    <<D(400, "bob"), D(393, "me"), D(200, "bob")>>, D(393, "me")),
         Change("aba",      <<D(400, "bob"), D(100, "ann"), D(293, "me"), D(200, "bob")>>, D(293, "me")),
         Change("self",     <<D(400, "me"), D(593, "me")>>, D(593, "me")),
         Change("sweep",    <<D(993, "bob"), D(0, "ann")>>, D(0, "me")),
         Change("mev",      <<D(400, "mev"), D(593, "me")>>, D(593, "me")),
         Change("mewbob",   <<D(400, "mew"), D(200, "bob"), D(393, "me")>>, D(393, "me")),
         Change("nochange", <<D(400, "bob"), D(593, "me")>>, D(0, "none")) }}
    [] f = "keys"  -> {Change("k" \o ToString(<<a, b, c>>), <<D(100, a), D(200, b), D(300, c), D(393, "me")>>, D(393, "me")) :
                          a \in {"bob", "bobs"}, b \in {"bob", "bobs", "bobs2", "ann", "me01", "me"}, c \in {"anns", "bobs", "ann", "me"}}
                      \cup {Change("j" \o ToString(<<a>>), <<D(600, a), D(393, "me")>>, D(393, "me")) :
                          a \in {"bob", "bobs", "me", "me01", "ann", "anns"}}
    [] f = "own"   -> {[Base EXCEPT !.id = "own" \o ToString(<<a, b, c, ac, su>>), !.nIn = 2,
                          !.src = <<S(1000, a), S(2000, b), S(4000, c)>>, !.acct = ac, !.subs = su,
                          !.dst = <<D(2993, IF ac = 0 THEN "me" ELSE "me1")>>,
                          !.chg = D(2993, IF ac = 0 THEN "me" ELSE "me1"), !.grp = <<1>>] :
                          a \in {"me", "me01", "me1"}, b \in {"me", "me01", "me1"}, c \in {"bob"}, ac \in 0..1, su \in BOOLEAN}
=============================================================================
