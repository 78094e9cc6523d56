------------------------------- MODULE SubIndex -------------------------------
(* The byte strings that are hashed: for a subaddress "SubAddr", a zero, the  *)
(* view key and both indices as four bytes little endian; for an output the   *)
(* derivation and its position as a variable length integer.  Numbers are     *)
(* byte or 7-bit digit sequences, least significant first, so that all 32 and *)
(* 64 bit values are within reach of TLC.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Bytes, Width, Digits, MaxDigits

VARIABLES kind, maj, mnr, pos, out
vars == <<kind, maj, mnr, pos, out>>

Trim(s) == IF \E i \in 1..Len(s) : s[i] # 0 THEN SubSeq(s, 1, CHOOSE i \in 1..Len(s) : s[i] # 0 /\ \A j \in i + 1..Len(s) : s[j] = 0) ELSE <<>>
Pad(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]

(* numbers with at most two digits that are not zero *)
Nums(D, w) == {[i \in 1..w |-> IF i = p THEN a ELSE IF i = q THEN b ELSE 0] : p \in 1..w, q \in 1..w, a \in D, b \in D} \cup {[i \in 1..w |-> d] : d \in D}

(* a subaddress index of width 4 fits, a fifth byte does not *)
SubMsg(a, b) == IF Len(Trim(a)) > 4 \/ Len(Trim(b)) > 4 THEN [tag |-> "refused", a |-> <<>>, b |-> <<>>]
                ELSE IF Trim(a) = <<>> /\ Trim(b) = <<>> THEN [tag |-> "main", a |-> <<>>, b |-> <<>>]
                ELSE [tag |-> "bytes", a |-> Pad(Trim(a), 4), b |-> Pad(Trim(b), 4)]

Varint(d) == LET t == Trim(d) IN IF t = <<>> THEN <<0>> ELSE [i \in 1..Len(t) |-> IF i < Len(t) THEN t[i] + 128 ELSE t[i]]

Init == /\ out = [tag |-> "none", a |-> <<>>, b |-> <<>>]
        /\ \/ kind = "sub" /\ maj \in Nums(Bytes, Width) /\ mnr \in Nums(Bytes, Width) /\ pos = <<>>
           \/ kind = "pos" /\ pos \in Nums(Digits, MaxDigits) /\ maj = <<>> /\ mnr = <<>>
Next == /\ out.tag = "none" /\ UNCHANGED <<kind, maj, mnr, pos>>
        /\ out' = IF kind = "sub" THEN SubMsg(maj, mnr) ELSE [tag |-> "pos", a |-> Varint(pos), b |-> <<>>]

(* reading back gives the numbers: no two addresses and no two positions share a byte string *)
RECURSIVE Unvar(_)
Unvar(s) == IF s = <<>> THEN <<>> ELSE <<IF Head(s) >= 128 THEN Head(s) - 128 ELSE Head(s)>> \o Unvar(Tail(s))
Injective == out.tag # "none" =>
  CASE kind = "pos" -> /\ Trim(Unvar(out.a)) = Trim(pos)
                       /\ \A i \in 1..Len(out.a) : (out.a[i] >= 128) <=> (i < Len(out.a))
    [] out.tag = "refused" -> Len(Trim(maj)) > 4 \/ Len(Trim(mnr)) > 4
    [] out.tag = "main" -> Trim(maj) = <<>> /\ Trim(mnr) = <<>>
    [] OTHER -> Trim(out.a) = Trim(maj) /\ Trim(out.b) = Trim(mnr) /\ Len(out.a) = 4 /\ Len(out.b) = 4

Emit == out.tag # "none" => PrintT("@V " \o ToJson([kind |-> kind, maj |-> maj, mnr |-> mnr, pos |-> pos, tag |-> out.tag, a |-> out.a, b |-> out.b]))
=============================================================================
