------------------------------ MODULE SeedPath ------------------------------
(***************************************************************************)
(* How wallet keys come from a secret: the chain of derivations, symbolic. *)
(* Every way in ends with the same last step, so equal Monero seeds give   *)
(* equal wallets, whichever way they were entered.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Deep

VARIABLES ph, src, curve, path, prog
vars == <<ph, src, curve, path, prog>>
Sources == {"monero", "words", "words24", "master16", "master32", "master64", "bip39", "bip39pass", "bip39idx"}
Idx == {0, 1, 44, 2147483647}
MaxPath == IF Deep THEN 3 ELSE 2

Init == ph = "IN" /\ src = "-" /\ curve = "-" /\ path = <<>> /\ prog = <<>>
Enter(s, c) ==
    /\ ph = "IN" /\ src' = s
    /\ IF s \in {"monero", "words", "words24"}
       THEN c = "none" /\ ph' = "SEED" /\ curve' = c /\ path' = path /\ prog' = <<"seed">>
       ELSE c \in {"secp", "ed"} /\ ph' = "NODE" /\ curve' = c /\ path' = path
            /\ prog' = (IF s \in {"bip39", "bip39pass"} THEN <<"pbkdf2">> ELSE <<>>) \o <<IF c = "ed" THEN "ed25519 seed" ELSE "Bitcoin seed">>
\* the default path (m/44'/128'/0'/0/0, or m/44'/128'/0' with ed25519)
Default == /\ ph = "NODE" /\ path = <<>> /\ ph' = "LEAF"
           /\ path' = <<<<44, TRUE>>, <<128, TRUE>>, <<0, TRUE>>>> \o (IF curve = "ed" THEN <<>> ELSE <<<<0, FALSE>>, <<0, FALSE>>>>)
           /\ prog' = Append(prog, "default") /\ UNCHANGED <<src, curve>>
\* ed25519 has only hardened children
Child(i, h) == /\ ph = "NODE" /\ Len(path) < MaxPath /\ (curve = "ed" => h) /\ path' = Append(path, <<i, h>>)
               /\ prog' = Append(prog, <<i, h>>) /\ UNCHANGED <<ph, src, curve>>
Soft(i) == ph = "NODE" /\ curve = "ed" /\ Len(path) < MaxPath /\ ph' = "REFUSED" /\ path' = Append(path, <<i, FALSE>>)
           /\ prog' = Append(prog, "refused") /\ UNCHANGED <<src, curve>>
Leaf == ph = "NODE" /\ ph' = "LEAF" /\ prog' = Append(prog, "leaf") /\ UNCHANGED <<src, curve, path>>
\* secp256k1: the key is hashed; ed25519: reduced
ToSeed == ph = "LEAF" /\ ph' = "SEED" /\ prog' = Append(prog, IF curve = "ed" THEN "reduce" ELSE "keccak") /\ UNCHANGED <<src, curve, path>>
Keys == ph = "SEED" /\ ph' = "KEYS" /\ prog' = Append(prog, "keys") /\ UNCHANGED <<src, curve, path>>

Next == (\E s \in Sources, c \in {"none", "secp", "ed"} : Enter(s, c)) \/ Default
        \/ (\E i \in Idx, h \in BOOLEAN : Child(i, h)) \/ (\E i \in {0, 44} : Soft(i)) \/ Leaf \/ ToSeed \/ Keys
\* nothing becomes keys without passing through a Monero seed
ThroughSeed == ph = "KEYS" => src \in {"monero", "words", "words24"} \/ prog[Len(prog) - 1] \in {"reduce", "keccak"}
Hardened == ph # "REFUSED" /\ curve = "ed" => \A k \in 1..Len(path) : path[k][2]
Emit == ph \in {"KEYS", "REFUSED"} => PrintT("@V " \o ToJson([src |-> src, curve |-> curve, path |-> path, prog |-> prog, ok |-> ph = "KEYS"]))
=============================================================================
