------------------------------ MODULE SeedTool ------------------------------
(***************************************************************************)
(* Command lines of the seed tool and of the device initialiser.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Deep
Kinds == {"electrum", "wlist", "master", "seed"}
Nets == {"main", "test", "stage"}

VARIABLES tool, v
vars == <<tool, v>>

(* seed tool *)
Curve(o) == IF o.slip THEN "ed" ELSE "secp"
Kind(o) == IF o.flags = {} THEN "bip39" ELSE CHOOSE k \in o.flags : TRUE
Refuses(o) ==
    \/ Cardinality(o.flags) > 1                                            \* conflicting kinds of input
    \/ Kind(o) \in {"electrum", "master"} /\ (o.slip \/ o.path # "none")     \* nothing to derive along a path
    \/ Kind(o) = "wlist" /\ o.pass
    \/ o.slip /\ o.path = "soft"                                           \* no soft children on ed25519
    \/ o.path = "bad"
    \/ o.bad                                                               \* a word too many, not hex, wrong checksum..
(* a passphrase belongs to BIP39 words; elsewhere it may be refused or have no effect *)
Loose(o) == o.pass /\ Kind(o) \notin {"bip39", "wlist"}
Listed(o) == IF ~o.subs THEN {} ELSE (o.nets \cap {"test", "stage"}) \cup (IF "main" \in o.nets \/ o.nets = {} THEN {"main"} ELSE {})
Prog(o) == IF Kind(o) \in {"electrum", "master"} THEN <<Kind(o)>>
           ELSE <<Kind(o), Curve(o), IF o.path = "none" THEN "default" ELSE o.path>>

Options == [flags: SUBSET Kinds, slip: BOOLEAN, path: {"none", "hard", "soft", "bad"}, pass: BOOLEAN, subs: BOOLEAN, nets: SUBSET Nets, bad: BOOLEAN]
Sensible(o) == /\ (~o.subs /\ ~Deep => o.nets \in {{}, {"test"}})
               /\ (o.subs => o.path \in {"none", "hard"} /\ ~o.bad /\ Cardinality(o.flags) <= 1)
               /\ (o.bad => Cardinality(o.flags) = 1 /\ o.path = "none" /\ ~o.pass)
               /\ (Cardinality(o.flags) > 2 => ~o.slip /\ o.path = "none" /\ ~o.pass)
               /\ (o.subs /\ ~Deep => ~o.pass)

(* initialiser *)
InitArgs == [mnemonic: BOOLEAN, idx: {"none", "0", "1"}, pin: BOOLEAN, pass: BOOLEAN, label: BOOLEAN, link: BOOLEAN, fault: {"none", "transport", "wipe"}]
Loaded(a) == IF a.fault # "none" THEN "nothing" ELSE IF a.mnemonic THEN "given" ELSE IF a.idx = "1" THEN "test24" ELSE "test12"
Calls(a) == CASE a.fault = "transport" -> <<>> [] a.fault = "wipe" -> <<"wipe">> [] OTHER -> <<"wipe", "load">>

Init == \/ tool = "seed" /\ v \in {o \in Options : Sensible(o)}
        \/ tool = "init" /\ v \in InitArgs
Next == FALSE /\ UNCHANGED vars

(* Exactly the networks asked for, one wallet per line, nothing given away for a refused line *)
ListSound == tool = "seed" => (Listed(v) # {} => v.subs) /\ (v.nets # {} /\ v.subs => Listed(v) = v.nets) /\ (v.subs => Listed(v) # {})
Determined == tool = "seed" /\ ~Refuses(v) => Len(Prog(v)) \in {1, 3}
GivenWins == tool = "init" /\ v.mnemonic => Loaded(v) \in {"given", "nothing"}
LoadLast == tool = "init" => \A i \in 1..Len(Calls(v)) : Calls(v)[i] = "load" => i = 2 /\ Calls(v)[1] = "wipe"
Emit == PrintT("@V " \o ToJson(IF tool = "seed"
          THEN [tool |-> tool, o |-> v, refused |-> Refuses(v), loose |-> Loose(v), prog |-> IF Refuses(v) THEN <<>> ELSE Prog(v), listed |-> Listed(v)]
          ELSE [tool |-> tool, o |-> v, calls |-> Calls(v), loaded |-> Loaded(v)]))
=============================================================================
