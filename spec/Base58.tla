------------------------------- MODULE Base58 -------------------------------
(***************************************************************************)
(* Monero's base58: 8-byte blocks become 11 digits, a shorter last block   *)
(* becomes EncSize digits.  Numbers are digit sequences, because a block   *)
(* does not fit TLC's integers.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Deep

EncSize == <<2, 3, 5, 6, 7, 9, 10, 11>>      \* of 1..8 bytes

\* little endian digits v (base b), fixed length: v * m + a; the carry beyond is kept in the last digit
RECURSIVE MulAdd(_, _, _, _)
MulAdd(v, b, m, a) == IF v = <<>> THEN <<>>
                      ELSE LET s == Head(v) * m + a IN <<s % b>> \o MulAdd(Tail(v), b, m, s \div b)
RECURSIVE Conv(_, _, _, _)
\* big endian digits ds in base "from" -> little endian accumulator in base b
Conv(ds, from, b, acc) == IF ds = <<>> THEN acc ELSE Conv(Tail(ds), from, b, MulAdd(acc, b, from, Head(ds)))
Zeros(n) == [i \in 1..n |-> 0]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Enc(bs) == Rev(Conv(bs, 256, 58, Zeros(EncSize[Len(bs)])))

SizeOf(n) == IF \E k \in 1..8 : EncSize[k] = n THEN CHOOSE k \in 1..8 : EncSize[k] = n ELSE 0
\* <<>> : not the encoding of a block
Dec(ds) == LET k == SizeOf(Len(ds))
               v == Conv(ds, 58, 256, Zeros(9))
           IN IF k = 0 THEN <<>>
              ELSE IF \E i \in k + 1..9 : v[i] # 0 THEN <<>>
              ELSE Rev(SubSeq(v, 1, k))

-----------------------------------------------------------------------------
\* blocks and digit strings to try
Pat(S, n) == [1..n -> S]
\* digits + k, without leaving the length (FALSE if it does)
RECURSIVE AddTo(_, _)
AddTo(ds, k) == IF ds = <<>> THEN <<>> ELSE LET n == Len(ds) s == ds[n] + k IN
    Append(AddTo(SubSeq(ds, 1, n - 1), s \div 58), s % 58)
MaxBlock(k) == Enc([i \in 1..k |-> 255])

Blocks == UNION {Pat({0, 255}, k) : k \in 1..8}
          \cup {[i \in 1..k |-> IF i = p THEN b ELSE c] : k \in 1..8, p \in 1..8, b \in {1, 57, 58, 128}, c \in {0, 200}}
Texts == {<<a, b>> : a \in 0..57, b \in 0..57}
         \cup UNION {{AddTo(MaxBlock(k), j) : j \in (-3)..(IF Deep THEN 200 ELSE 60)} : k \in 1..8}
         \cup UNION {Pat({0, 57}, n) : n \in {1, 2, 3, 4, 5, 6, 7, 8, 9, 10} \cup (IF Deep THEN {11, 12} ELSE {})}
         \cup UNION {{[i \in 1..n |-> IF i = p THEN d ELSE 57] : p \in 1..n, d \in {0, 1, 56}} : n \in 1..12}
         \cup {[MaxBlock(k) EXCEPT ![p] = @ + 1] : k \in 1..8, p \in 1..2}

VARIABLE v
Init == \/ \E b \in Blocks : v = <<"enc", b, Enc(b)>>
        \/ \E t \in {x \in Texts : \A i \in 1..Len(x) : x[i] <= 57} : v = <<"dec", t, Dec(t)>>
Next == FALSE /\ v' = v

\* the two are inverse to each other: one text per block
Inverse == \/ v[1] = "enc" /\ Dec(v[3]) = v[2]
           \/ v[1] = "dec" /\ (v[3] = <<>> \/ Enc(v[3]) = v[2])
Emit == PrintT("@V " \o ToJson(v))
=============================================================================
