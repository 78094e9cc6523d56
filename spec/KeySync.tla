------------------------------- MODULE KeySync ------------------------------
(***************************************************************************)
(* Key image synchronisation: the device side under an arbitrary host, and *)
(* the honest host that batches a list of outputs.                         *)
(*                                                                         *)
(* The pool holds outputs 1..5; the host announces a list of them with a   *)
(* count, a digest of the list and the subaddresses involved, and then     *)
(* sends outputs in steps.  An output can be sent altered: "idx" (output   *)
(* index), "key" (one-time key), "pub" (transaction key), "extra" (an      *)
(* irrelevant additional key: still ours, but not what was announced),     *)
(* "foreign" (somebody else's output).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Fam, MaxSess, MaxLen

\* pool: where each output was received
Addr == <<"me", "me01", "me1", "me", "me01">>
AllSubs == {"me", "me01", "me1"}

VARIABLES sc, ph, sess, got, nst, act, resp, key
vars == <<sc, ph, sess, got, nst, act, resp, key>>
View == <<sc, ph, sess, got, nst, key>>

Ann(id, l, n, sb, ap) == [id |-> id, list |-> l, num |-> n, subs |-> sb, approve |-> ap]
Scenarios(f) ==
  CASE f = "dev" -> {Ann("dev" \o ToString(<<l, n>>), l, n, AllSubs, TRUE) :
                        l \in {<<>>, <<1>>, <<1, 2>>, <<2, 1>>}, n \in 0..3}
    [] f = "dev1" -> {Ann("dev1", <<2>>, 1, AllSubs, TRUE)}
    [] f = "rej" -> {Ann("rej" \o ToString(<<l, n>>), l, n, AllSubs, FALSE) : l \in {<<>>, <<1>>}, n \in 0..1}
    [] f = "subs" -> {Ann("subs" \o ToString(<<l, sb>>), l, Len(l), sb, TRUE) :
                        l \in {<<1>>, <<2>>, <<3>>, <<1, 3>>}, sb \in SUBSET AllSubs}
    [] f = "deep" -> {Ann("deep" \o ToString(l), l, Len(l), AllSubs, TRUE) : l \in {<<1, 2, 3>>, <<1, 1>>, <<3, 2, 1>>, <<4, 5, 1, 2>>}}

E(i, v) == [i |-> i, v |-> v]
Variants == {"ok", "idx", "key", "pub", "extra", "foreign"}
Pool(s) == {s.list[k] : k \in 1..Len(s.list)} \cup {1}
Steps(s) == {<<>>} \cup {<<E(i, v)>> : i \in Pool(s), v \in Variants}
            \cup {<<E(i, "ok"), E(j, v)>> : i \in Pool(s), j \in Pool(s), v \in {"ok", "foreign", "extra"}}
            \cup (IF Len(s.list) > 2 THEN {[k \in 1..Len(s.list) |-> E(s.list[k], "ok")]} ELSE {})

Exportable(e) == e.v \in {"ok", "extra"} /\ Addr[e.i] \in sc.subs

\* the key of the session is out
NoKey == 0

Init == /\ sc \in Scenarios(Fam)
        /\ ph = "NONE" /\ sess = 0 /\ got = <<>> /\ nst = 0
        /\ act = [m |-> "-"] /\ resp = "-" /\ key = NoKey

Fail(a) == /\ act' = a /\ resp' = "fail" /\ ph' = "NONE" /\ got' = <<>> /\ nst' = 0 /\ UNCHANGED <<sc, sess, key>>

InitMsg == /\ sess < MaxSess
           /\ sess' = sess + 1 /\ got' = <<>> /\ nst' = 0 /\ act' = [m |-> "init"] /\ UNCHANGED <<sc, key>>
           /\ IF sc.approve THEN ph' = "RUN" /\ resp' = "ack" ELSE ph' = "NONE" /\ resp' = "fail"

Step(b) == LET a == [m |-> "step", b |-> b]
               ok == /\ ph = "RUN" /\ b # <<>>
                     /\ Len(got) + Len(b) <= sc.num
                     /\ \A k \in 1..Len(b) : Exportable(b[k])
           IN \/ /\ ok /\ got' = got \o b /\ nst' = nst + 1 /\ act' = a /\ resp' = "ack" /\ UNCHANGED <<sc, ph, sess, key>>
              \/ ~ok /\ Fail(a)

Announced == [k \in 1..Len(sc.list) |-> E(sc.list[k], "ok")]
Final == LET a == [m |-> "final"]
             ok == ph = "RUN" /\ Len(got) = sc.num /\ got = Announced
         IN \/ /\ ok /\ act' = a /\ resp' = "key" /\ key' = sess /\ ph' = "NONE" /\ got' = <<>> /\ nst' = 0 /\ UNCHANGED <<sc, sess>>
            \/ ~ok /\ Fail(a)

Next == InitMsg \/ (\E b \in Steps(sc) : Step(b)) \/ Final
Bound == Len(got) <= MaxLen

\* K02: the key only for exactly the approved list
ReleaseProp == [][resp' = "key" /\ act'.m = "final" => sc.approve /\ got = Announced /\ Len(got) = sc.num]_vars
EndProp == [][ph = "NONE" /\ act'.m # "init" => resp' = "fail"]_vars
LenInv == Len(got) <= sc.num

Emit == PrintT("@E " \o ToJson(<<sc.id, <<ph, sess, got, nst, key>>, act', resp', <<ph', sess', got', nst', key'>> >>))
EmitScn == PrintT("@S " \o ToJson([id |-> sc.id, sc |-> sc]))
InitEmit == Init /\ EmitScn
=============================================================================
