------------------------------- MODULE Ownership -------------------------------
(* Who owns an output.  Public keys, derivations and secrets are formal: an   *)
(* address is (wallet, subaddress or main); the derivation both sides share   *)
(* is the product of the sender's secret, the generator it was published on   *)
(* and a view key; the one-time key is hash(derivation, position) + spend key *)
(* (+ a small-order part somebody added).  The sender may follow Monero's     *)
(* rules or any others; afterwards anybody may alter the transaction.  The    *)
(* wallet scans it with the addresses it knows, learns more addresses, and    *)
(* scans it again.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, SequencesExt

CONSTANTS MaxOut, Free      \* Free: also senders with rules of their own

Dests == {"main", "k1", "k2", "u", "fmain", "fsub"}
Wal(d) == IF d \in {"fmain", "fsub"} THEN "F" ELSE "W"
IsSub(d) == d \in {"k1", "k2", "u", "fsub"}
Gen(d) == IF IsSub(d) THEN d ELSE "G"              \* the view key of an address is view * (its spend key) or view * G
Own == {"main", "k1", "k2", "u"}

VARIABLES phase, dests, modes, base, adds, keys, alt, watch, known, res

vars == <<phase, dests, modes, base, adds, keys, alt, watch, known, res>>

None == "none"

(* ---- the sender ---- *)
NStd(ds, ms) == \E i \in 1..Len(ds) : ~IsSub(ds[i]) /\ ms[i] # "self"
Subs(ds, ms) == {ds[i] : i \in {i \in 1..Len(ds) : IsSub(ds[i]) /\ ms[i] # "self"}}
RuleBase(ds, ms) == IF ~NStd(ds, ms) /\ Cardinality(Subs(ds, ms)) = 1 THEN CHOOSE d \in Subs(ds, ms) : TRUE ELSE "G"
RuleAdds(ds, ms) == Subs(ds, ms) # {} /\ (NStd(ds, ms) \/ Cardinality(Subs(ds, ms)) > 1)
RuleMode(d, a) == IF a /\ IsSub(d) THEN "add" ELSE "tx"

(* the derivation the sender uses for output i: secret, generator, view key *)
SDer(i) == CASE modes[i] = "self" -> <<"r", base, "W">>                       \* change: own view key on the published key
             [] modes[i] = "tx"   -> <<"r", Gen(dests[i]), Wal(dests[i])>>
             [] modes[i] = "add"  -> <<ToString(i), Gen(dests[i]), Wal(dests[i])>>

Init ==
  /\ phase = "make" /\ keys = <<>> /\ alt = [k |-> None, i |-> 0] /\ known = {"main", "k1"} /\ res = <<>>
  /\ watch \in BOOLEAN
  /\ \E n \in 1..MaxOut :
       /\ dests \in [1..n -> Dests]
       /\ modes \in [1..n -> {"tx", "add", "self"}]
       /\ \A i \in 1..n : modes[i] = "self" => dests[i] \in {"main", "k1"}
       /\ adds \in BOOLEAN
       /\ base \in {"G"} \cup {d \in Dests : IsSub(d) /\ \E i \in 1..n : dests[i] = d}
       /\ (\E i \in 1..n : modes[i] = "add") => adds
       /\ \/ Free
          \/ /\ Cardinality({i \in 1..n : modes[i] = "self"}) <= 1
             /\ base = RuleBase(dests, modes) /\ adds = RuleAdds(dests, modes)
             /\ \A i \in 1..n : modes[i] = "self" \/ modes[i] = RuleMode(dests[i], adds)

Standard == /\ Cardinality({i \in 1..Len(dests) : modes[i] = "self"}) <= 1
            /\ base = RuleBase(dests, modes) /\ adds = RuleAdds(dests, modes)
            /\ \A i \in 1..Len(dests) : modes[i] = "self" \/ modes[i] = RuleMode(dests[i], adds)

(* published: the transaction key, the additional keys <<secret, generator, small part>>, the outputs *)
Make == /\ phase = "make" /\ phase' = "alter"
        /\ keys' = [r |-> <<"r", base, 0>>,
                    add |-> IF adds THEN [i \in 1..Len(dests) |-> <<ToString(i), Gen(dests[i]), 0>>] ELSE <<>>,
                    out |-> [i \in 1..Len(dests) |-> [h |-> <<SDer(i), i>>, spend |-> dests[i], t |-> 0]],
                    amt |-> [i \in 1..Len(dests) |-> "ok"]]
        /\ UNCHANGED <<dests, modes, base, adds, alt, watch, known, res>>

Alts(n) == {[k |-> None, i |-> 0]}
  \cup {[k |-> k, i |-> i] : k \in {"key other", "key shift", "key small", "key of address", "amount", "mask", "commitment", "swap amount"}, i \in 1..n}
  \cup {[k |-> k, i |-> i] : k \in {"swap out"}, i \in 2..n}
  \cup {[k |-> k, i |-> 0] : k \in {"r other", "r small", "r neg", "r id"}}
  \cup (IF adds THEN {[k |-> k, i |-> i] : k \in {"add other", "add small", "add is r", "add neg"}, i \in 1..n}
                      \cup {[k |-> "add short", i |-> i] : i \in 0..n - 1} \cup {[k |-> "add more", i |-> 0]}
                      \cup {[k |-> "add swap", i |-> i] : i \in 2..n}
        ELSE {[k |-> "add made", i |-> 0]})

Sw(s, i) == [j \in 1..Len(s) |-> IF j = 1 THEN s[i] ELSE IF j = i THEN s[1] ELSE s[j]]

Altered(K, a) ==
  CASE a.k = None -> K
    [] a.k = "key other" -> [K EXCEPT !.out[a.i].h = <<<<"x", "x", "x">>, 0>>, !.out[a.i].spend = "x"]
    [] a.k = "key shift" -> [K EXCEPT !.out[a.i].spend = "shift"]                     \* + G
    [] a.k = "key small" -> [K EXCEPT !.out[a.i].t = 1]
    [] a.k = "key of address" -> [K EXCEPT !.out[a.i] = [h |-> <<<<"0", "0", "0">>, 0>>, spend |-> dests[a.i], t |-> 0]]   \* the bare spend key
    [] a.k \in {"amount", "mask", "commitment"} -> [K EXCEPT !.amt[a.i] = a.k]
    [] a.k = "swap amount" -> [K EXCEPT !.amt = [j \in 1..Len(@) |-> IF Len(@) > 1 /\ j \in {a.i, (a.i % Len(@)) + 1} THEN "swapped" ELSE @[j]]]
    [] a.k = "swap out" -> [K EXCEPT !.out = Sw(@, a.i), !.amt = [j \in 1..Len(@) |-> IF j \in {1, a.i} THEN "moved" ELSE @[j]]]
    [] a.k = "r other" -> [K EXCEPT !.r = <<"x", "G", 0>>]
    [] a.k = "r small" -> [K EXCEPT !.r[3] = 1]
    [] a.k = "r neg" -> [K EXCEPT !.r = <<"-r", base, 0>>]
    [] a.k = "r id" -> [K EXCEPT !.r = <<"0", "G", 0>>]
    [] a.k = "add other" -> [K EXCEPT !.add[a.i] = <<"x", "G", 0>>]
    [] a.k = "add small" -> [K EXCEPT !.add[a.i][3] = 1]
    [] a.k = "add neg" -> [K EXCEPT !.add[a.i][1] = "-"]
    [] a.k = "add is r" -> [K EXCEPT !.add[a.i] = K.r]
    [] a.k = "add short" -> [K EXCEPT !.add = SubSeq(@, 1, a.i)]
    [] a.k = "add more" -> [K EXCEPT !.add = Append(@, <<"x", "G", 0>>)]
    [] a.k = "add swap" -> [K EXCEPT !.add = Sw(@, a.i)]
    [] a.k = "add made" -> [K EXCEPT !.add = [i \in 1..Len(dests) |-> <<"x", "G", 0>>]]

Alter == /\ phase = "alter" /\ phase' = "scan1"
         /\ \E a \in Alts(Len(dests)) : alt' = a /\ keys' = Altered(keys, a)
         /\ UNCHANGED <<dests, modes, base, adds, watch, known, res>>

(* ---- the wallet W ---- *)
RDer(pub) == <<pub[1], pub[2], "W">>          \* 8 * view * published: a small part vanishes
Via(der, i, K) == K.out[i].h = <<der, i>> /\ K.out[i].t = 0
(* what remains after subtracting the hash is a known spend key *)
Hit(der, i, K, kn) == Via(der, i, K) /\ K.out[i].spend \in kn

ScanOut(i, K, kn) ==
  IF Hit(RDer(K.r), i, K, kn) THEN [own |-> "yes", at |-> K.out[i].spend, via |-> "tx"]
  ELSE IF Len(K.add) = 0 THEN [own |-> "no", at |-> None, via |-> None]
  ELSE IF i > Len(K.add) THEN [own |-> "error", at |-> None, via |-> None]
  ELSE IF Hit(RDer(K.add[i]), i, K, kn) THEN [own |-> "yes", at |-> K.out[i].spend, via |-> "add"]
  ELSE [own |-> "no", at |-> None, via |-> None]

(* the secret: spend + subaddress + hash parts; it opens the key iff the parts agree *)
Secret(i, K, s) == [h |-> <<IF s.via = "tx" THEN RDer(K.r) ELSE RDer(K.add[i]), i>>, spend |-> s.at, t |-> 0]
Image(i, K) == K.out[i]                        \* secret * Hp(key): a function of the key
Money(i, K) == K.amt[i] = "ok"

One(i, K, kn) == LET s == ScanOut(i, K, kn) IN
  [own |-> s.own, at |-> s.at, via |-> s.via,
   spend |-> IF s.own # "yes" THEN None ELSE IF watch THEN "refused" ELSE IF Secret(i, K, s) = K.out[i] THEN "opens" ELSE "wrong",
   money |-> IF s.own # "yes" THEN None ELSE IF Money(i, K) THEN "ok" ELSE "refused"]

Scan(kn) == [i \in 1..Len(dests) |-> One(i, keys, kn)]

Scan1 == /\ phase = "scan1" /\ phase' = "learn" /\ res' = <<Scan(known)>>
         /\ UNCHANGED <<dests, modes, base, adds, keys, alt, watch, known>>
Learn == /\ phase = "learn" /\ phase' = "scan2" /\ known' = known \cup {"k2"}
         /\ UNCHANGED <<dests, modes, base, adds, keys, alt, watch, res>>
Scan2 == /\ phase = "scan2" /\ phase' = "done" /\ res' = Append(res, Scan(known))
         /\ UNCHANGED <<dests, modes, base, adds, keys, alt, watch, known>>

Next == Make \/ Alter \/ Scan1 \/ Learn \/ Scan2

Knowns == <<{"main", "k1"}, {"main", "k1", "k2"}>>
Touched(i) == alt.i = i \/ alt.k \in {"r other", "r neg", "r id", "add more", "add made", "swap amount", "swap out", "add swap", "add short"}

(* an untouched output of a standard sender is recognised iff it went to a known address, and as that address *)
Recognised == \A s \in 1..Len(res) : \A i \in 1..Len(dests) : (Standard /\ ~Touched(i)) =>
   /\ (res[s][i].own = "yes") <=> (dests[i] \in Knowns[s])
   /\ res[s][i].own = "yes" => res[s][i].at = dests[i] /\ res[s][i].money = "ok"
(* nothing is ever taken for own that did not go to a known address of the wallet *)
NoForeign == \A s \in 1..Len(res) : \A i \in 1..Len(dests) : res[s][i].own = "yes" => res[s][i].at \in Knowns[s] /\ res[s][i].at = keys.out[i].spend
(* whatever is recognised can be spent *)
Opens == \A s \in 1..Len(res) : \A i \in 1..Len(dests) : res[s][i].own = "yes" => res[s][i].spend = (IF watch THEN "refused" ELSE "opens")
(* learning addresses never loses an output *)
Grows == Len(res) = 2 => \A i \in 1..Len(dests) : res[1][i].own = "yes" => res[2][i] = res[1][i]
(* the same image exactly for the same key *)
Images == \A i, j \in 1..Len(dests) : phase = "done" => ((Image(i, keys) = Image(j, keys)) <=> (keys.out[i] = keys.out[j]))

Emit == phase = "done" =>
  PrintT("@V " \o ToJson([dests |-> dests, modes |-> modes, base |-> base, adds |-> adds, alt |-> alt, watch |-> watch, std |-> Standard, res |-> res]))
=============================================================================
