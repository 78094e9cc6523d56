------------------------------ MODULE Mnemonic ------------------------------
(***************************************************************************)
(* Monero word lists: each four bytes (a little endian number x below      *)
(* 2^32) are three words of a list of N = 1626, each word relative to the  *)
(* one before; one more word, chosen by a checksum of the others, repeats  *)
(* one of them.  Numbers are digit sequences (32 bits do not fit TLC).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Deep
N == 1626

RECURSIVE MulAdd(_, _, _, _)
MulAdd(v, b, m, a) == IF v = <<>> THEN <<>>
                      ELSE LET s == Head(v) * m + a IN <<s % b>> \o MulAdd(Tail(v), b, m, s \div b)
RECURSIVE Conv(_, _, _, _)
Conv(ds, from, b, acc) == IF ds = <<>> THEN acc ELSE Conv(Tail(ds), from, b, MulAdd(acc, b, from, Head(ds)))
Zeros(n) == [i \in 1..n |-> 0]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* bytes (as stored, least significant first) -> words
Words(b) == LET d == Conv(Rev(b), 256, N, Zeros(3))
                w1 == d[1]
                w2 == (d[2] + w1) % N
                w3 == (d[3] + w2) % N
            IN <<w1, w2, w3>>
\* words -> bytes, <<>> if the number is 2^32 or more
Bytes(w) == LET d == <<w[1], (w[2] + N - w[1]) % N, (w[3] + N - w[2]) % N>>
                v == Conv(Rev(d), N, 256, Zeros(5))
            IN IF v[5] # 0 THEN <<>> ELSE SubSeq(v, 1, 4)

Corner == {0, 1, 90, 255} \cup (IF Deep THEN {6, 89, 128, 254} ELSE {})
WCorner == {0, 1, 2, 812, 813, 1623, 1624, 1625} \cup (IF Deep THEN {3, 400, 1200, 1622} ELSE {})

\* lists: g groups, with or without checksum word, then one change
Edits(g, c) == LET n == 3 * g + c IN
    {<<"none">>, <<"caps">>, <<"tuple">>, <<"spaces">>, <<"joined">>}
    \cup {<<"drop", p>> : p \in 1..n} \cup {<<"dup", p>> : p \in 1..n} \cup {<<"unknown", p>> : p \in 1..n}
    \cup {<<"other", p, m>> : p \in 1..3 * g, m \in BOOLEAN}      \* another word; checksum then right or wrong
    \cup {<<"swap", p, m>> : p \in 1..3 * g - 1, m \in BOOLEAN}   \* two neighbours
    \cup {<<"over", k, m>> : k \in 1..g, m \in BOOLEAN}           \* a triple worth 2^32 or more; checksum right or wrong
    \cup (IF c = 1 THEN {<<"chk", k>> : k \in 1..3} ELSE {})      \* another word in place of the checksum word
    \cup {<<"extra", k>> : k \in 1..3}

Count(g, c, e) == 3 * g + c + (CASE e[1] = "drop" -> -1 [] e[1] = "dup" -> 1 [] e[1] = "extra" -> e[2] [] OTHER -> 0)
\* TRUE: decodes to what the words say; "free": depends on the checksum of the shifted list
Verdict(g, c, e) ==
    LET n == Count(g, c, e) IN
    CASE n < 3 \/ n % 3 = 2 -> "no"
      [] e[1] = "unknown" -> "no"
      [] e[1] = "joined" -> "no"
      [] e[1] \in {"none", "tuple"} -> "yes"
      [] e[1] \in {"caps", "spaces"} -> "free"        \* tidied by one entry point, unknown words for the other
      [] e[1] = "over" -> "no"
      [] e[1] = "chk" -> "no"
      [] e[1] \in {"other", "swap"} -> IF c = 0 \/ e[3] THEN "yes" ELSE "no"
      [] OTHER -> IF n % 3 = 0 THEN "yes" ELSE "check"    \* the last word is checked against the ones before
Restore(g, c, e) == IF Verdict(g, c, e) = "no" THEN "no" ELSE IF Count(g, c, e) \div 3 # 8 THEN "no" ELSE Verdict(g, c, e)

VARIABLE v
Init == \/ \E b \in [1..4 -> Corner] : v = <<"enc", b, Words(b)>>
        \/ \E w \in [1..3 -> WCorner] : v = <<"dec", w, Bytes(w)>>
        \/ \E g \in {1, 2, 4, 7, 8, 9}, c \in 0..1 : \E e \in Edits(g, c) :
              v = <<"list", [g |-> g, c |-> c, e |-> e, decode |-> Verdict(g, c, e), wallet |-> Restore(g, c, e)], <<>>>>
Next == FALSE /\ v' = v
RoundTrip == CASE v[1] = "enc" -> Bytes(v[3]) = v[2]
               [] v[1] = "dec" -> v[3] = <<>> \/ Words(v[3]) = v[2]
               [] OTHER -> TRUE
Emit == PrintT("@V " \o ToJson(v))
=============================================================================
