------------------------------ MODULE TxExtra ------------------------------
(***************************************************************************)
(* The extra field of a transaction: a sequence of tagged items, written   *)
(* one behind the other and read back one by one.  Bytes are 0..255; byte  *)
(* j of key i is the symbol 1000 + 32 * i + j, so that a reader out of     *)
(* step shows.  The machine appends items, removes all items of one kind,  *)
(* and at the end the text may be cut or altered.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Deep, MaxOps

Key(i) == [j \in 1..32 |-> 1000 + 32 * i + (j - 1)]
VI(n)  == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o (IF n \div 128 < 128 THEN <<n \div 128>> ELSE <<128 + ((n \div 128) % 128), n \div 16384>>)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Keys(ks) == Cat([i \in 1..Len(ks) |-> Key(ks[i])])

Pub(i)     == [k |-> "pub",   d |-> Key(i)]
Nonce(n,f) == [k |-> "nonce", d |-> [i \in 1..n |-> IF i = 1 THEN f ELSE (7 * i) % 256]]
Addl(ks)   == [k |-> "addl",  d |-> Keys(ks)]
Mm(i)      == [k |-> "mm",    d |-> Key(i)]
Mg(n)      == [k |-> "mg",    d |-> [i \in 1..n |-> i]]
Pad(n)     == [k |-> "pad",   d |-> [i \in 1..n |-> 0]]

Enc(f) == CASE f.k = "pub"   -> <<1>> \o f.d
            [] f.k = "nonce" -> <<2>> \o VI(Len(f.d)) \o f.d
            [] f.k = "addl"  -> <<4>> \o VI(Len(f.d) \div 32) \o f.d
            [] f.k = "mm"    -> <<3, 33, 0>> \o f.d
            [] f.k = "mg"    -> <<222>> \o VI(Len(f.d)) \o f.d
            [] f.k = "pad"   -> f.d
EncAll(fs) == Cat([i \in 1..Len(fs) |-> Enc(fs[i])])

-----------------------------------------------------------------------------
\* the reader; "free": nothing is said about this text (symbols read as lengths, unusual but unambiguous encodings)
Bad  == [r |-> "err",  f |-> <<>>]
Free == [r |-> "free", f |-> <<>>]
\* length at position p: <<value, next position>>, <<-1, 0>> cut, <<-2, 0>> free
Len1(b, p) == IF p > Len(b) THEN <<-1, 0>>
              ELSE IF b[p] >= 1000 THEN <<-2, 0>>
              ELSE IF b[p] < 128 THEN <<b[p], p + 1>>
              ELSE IF p + 1 > Len(b) THEN <<-1, 0>>
              ELSE IF b[p + 1] >= 128 \/ b[p + 1] = 0 THEN <<-2, 0>>
              ELSE <<b[p] - 128 + 128 * b[p + 1], p + 2>>
Take(b, p, n) == SubSeq(b, p, p + n - 1)
RECURSIVE Parse(_, _, _)
\* one item of length n (already checked) and the rest
Item(b, q, n, k, acc) == IF q + n - 1 > Len(b) THEN Bad
                         ELSE Parse(b, q + n, Append(acc, [k |-> k, d |-> Take(b, q, n)]))
Sized(b, p, unit, k, acc) == LET l == Len1(b, p) IN
    IF l[1] = -1 THEN Bad ELSE IF l[1] = -2 THEN Free
    ELSE IF k = "nonce" /\ l[1] > 255 THEN Free
    ELSE Item(b, l[2], l[1] * unit, k, acc)
Parse(b, p, acc) ==
    IF p > Len(b) THEN [r |-> "ok", f |-> acc]
    ELSE CASE b[p] >= 1000 -> Free
           [] b[p] = 0 -> IF \A i \in p..Len(b) : b[i] = 0
                          THEN [r |-> "ok", f |-> Append(acc, [k |-> "pad", d |-> Take(b, p, Len(b) - p + 1)])]
                          ELSE Bad
           [] b[p] = 1 -> Item(b, p + 1, 32, "pub", acc)
           [] b[p] = 2 -> Sized(b, p + 1, 1, "nonce", acc)
           [] b[p] = 4 -> Sized(b, p + 1, 32, "addl", acc)
           [] b[p] = 222 -> Sized(b, p + 1, 1, "mg", acc)
           [] b[p] = 3 -> IF p + 2 > Len(b) THEN Bad
                          ELSE IF b[p + 1] # 33 \/ b[p + 2] # 0 THEN Free
                          ELSE Item(b, p + 3, 32, "mm", acc)
           [] OTHER -> Bad

-----------------------------------------------------------------------------
Small == {Pub(1), Pub(2), Addl(<<3>>), Addl(<<4, 5>>), Nonce(9, 1), Nonce(33, 0), Nonce(0, 7)}
Alien == {Mm(6), Mg(3), Mg(0)}
Large == {Nonce(n, f) : n \in {1, 2, 8, 9, 10, 32, 33, 34, 127, 128, 129, 254, 255}, f \in {0, 1, 2}} \cup {Addl([i \in 1..n |-> i]) : n \in {0, 1, 2, 3, 16}}
         \cup {Mg(n) : n \in {1, 127, 128}} \cup (IF Deep THEN {Addl([i \in 1..n |-> i]) : n \in {127, 128, 129}} \cup {Nonce(n, 1) : n \in 11..140} ELSE {})
Kinds == {"pub", "nonce", "addl", "mm", "mg", "pad"}

VARIABLES fs, ex, hist, alt
vars == <<fs, ex, hist, alt>>

Init == fs = <<>> /\ ex = <<>> /\ hist = <<>> /\ alt = <<"none", 0, 0>>
Open == alt = <<"none", 0, 0>> /\ Len(hist) < MaxOps /\ (IF fs = <<>> THEN TRUE ELSE fs[Len(fs)].k # "pad")
NoDropAt(i) == hist[i].k \in Kinds
Add(f) == /\ Open
          /\ fs' = Append(fs, f) /\ ex' = ex \o Enc(f) /\ hist' = Append(hist, f) /\ UNCHANGED alt
Drop(k) == /\ alt = <<"none", 0, 0>> /\ fs # <<>> /\ NoDropAt(Len(hist))
           /\ fs' = SelectSeq(fs, LAMBDA f : f.k # k) /\ ex' = EncAll(fs') /\ hist' = Append(hist, [k |-> "drop " \o k, d |-> <<>>]) /\ UNCHANGED alt
Starts == {1 + Len(EncAll(SubSeq(fs, 1, i))) : i \in 0..(Len(fs) - 1)}
NoDrop == \A i \in 1..Len(hist) : NoDropAt(i)
Cut(c) == /\ alt = <<"none", 0, 0>> /\ NoDrop /\ ex # <<>> /\ c < Len(ex)
          /\ alt' = <<"cut", c, 0>> /\ ex' = SubSeq(ex, 1, c) /\ UNCHANGED <<fs, hist>>
Set(p, v) == /\ alt = <<"none", 0, 0>> /\ NoDrop /\ p <= Len(ex) /\ ex[p] # v
             /\ alt' = <<"set", p, v>> /\ ex' = [ex EXCEPT ![p] = v] /\ UNCHANGED <<fs, hist>>
Plain(g) == g \in Small
Alter == Len(hist) <= IF Deep THEN 3 ELSE 2
Next == \/ \E f \in Small : (Len(hist) < 2 \/ \A i \in 1..Len(fs) : Plain(fs[i])) /\ Add(f)
        \/ \E f \in Alien \cup {Pad(1), Pad(3)} : Len(hist) < (IF Deep THEN 2 ELSE 1) /\ Add(f)
        \/ \E f \in Large : Len(hist) < 1 /\ Add(f)
        \/ \E k \in Kinds : Drop(k)
        \/ Alter /\ \E s \in Starts, o \in {-2, -1, 0, 1, 2, 5, 31, 32} : s + o >= 0 /\ Cut(s + o)
        \/ Alter /\ \E c \in {Len(ex) - 1} : c >= 0 /\ Cut(c)
        \/ Alter /\ \E s \in Starts, v \in {0, 1, 2, 3, 4, 5, 129, 222, 255} : Set(s, v)
        \/ Alter /\ \E s \in Starts, v \in {0, 1, 2, 3, 8, 9, 10, 33, 34, 127, 128} : s <= Len(ex) /\ ex[s] \in {2, 4, 222} /\ Set(s + 1, v)
Spec == Init /\ [][Next]_vars

P == Parse(ex, 1, <<>>)
\* reading gives back what was added
RoundTrip == alt[1] = "none" => P.r = "ok" /\ P.f = fs
\* a cut text is refused, unless the cut is between items (or inside the padding): then the items before it are read
Truncated == alt[1] = "cut" /\ P.r = "ok" =>
             \/ \E i \in 0..Len(fs) : alt[2] = Len(EncAll(SubSeq(fs, 1, i))) /\ P.f = SubSeq(fs, 1, i)
             \/ fs[Len(fs)].k = "pad" /\ alt[2] > Len(EncAll(SubSeq(fs, 1, Len(fs) - 1)))
Emit == P.r = "free" \/ PrintT("@V " \o ToJson([h |-> hist, ex |-> ex, alt |-> alt, r |-> P.r, f |-> P.f]))
=============================================================================
