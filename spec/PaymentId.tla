----------------------------- MODULE PaymentId -----------------------------
(***************************************************************************)
(* Encryption of short payment ids.  The mask belongs to the shared secret *)
(* of the sender's transaction key r and the recipient's view key a; a     *)
(* small order component of the public key does not change it.  Encrypting *)
(* is an exclusive or with the mask, so two encryptions with the same      *)
(* shared secret cancel and encryptions commute.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Deep, MaxOps

Pids == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>, <<1, 2, 3, 4, 5, 6, 7, 128>>}
Pairs == {1, 2} \X {3, 4}                    \* sender key, recipient key (numbers of scalars)
\* one encryption: by the sender (knows r, sees A) or by the recipient (knows a, sees R); t: small order part added to the seen key
Steps == [side : {"s", "r"}, pair : Pairs, t : IF Deep THEN 0..7 ELSE {0, 1, 4}, tail : {141, 139}]

VARIABLES pid, ops, masks
Init == pid \in Pids /\ ops = <<>> /\ masks = {}
\* symmetric difference: the masks still applied
Toggle(S, x) == IF x \in S THEN S \ {x} ELSE S \cup {x}
Enc(s) == Len(ops) < MaxOps /\ ops' = Append(ops, s) /\ masks' = Toggle(masks, <<s.pair, s.tail>>) /\ UNCHANGED pid
Next == \E s \in Steps : Enc(s)
\* the recipient undoes what the sender did, and the other way round
Undone == Len(ops) = 2 /\ ops[1].pair = ops[2].pair /\ ops[1].tail = ops[2].tail => masks = {}
Parity == \A m \in Pairs \X {141, 139} : m \in masks <=> Cardinality({i \in 1..Len(ops) : <<ops[i].pair, ops[i].tail>> = m}) % 2 = 1
Emit == PrintT("@V " \o ToJson([pid |-> pid, ops |-> ops, masks |-> masks]))
=============================================================================
