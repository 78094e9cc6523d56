------------------------------- MODULE Scalars --------------------------------
(* Integers modulo the group order l = 2^252 + c, in full size: 22 digits of   *)
(* 12 bits, least significant first.  TLC's numbers have 32 bits, every         *)
(* intermediate value here stays below 2^28.                                    *)
EXTENDS Integers, Sequences

W == 4096
N == 22
Dig == 1..N

Zero == [i \in Dig |-> 0]
Small(n) == [i \in Dig |-> CASE i = 1 -> n % W [] i = 2 -> (n \div W) % W [] i = 3 -> n \div (W * W) [] OTHER -> 0]
One == Small(1)

(* c = 27742317777372353535851937790883648493 *)
Order == <<1005, 3933, 2652, 1585, 2066, 3429, 1948, 2607, 2526, 3567, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>

(* digits from sums that may be negative or above the base; the rest is carried out of the top *)
RECURSIVE Carry(_, _, _, _)
Carry(v, n, i, k) == IF i > n THEN <<k>> ELSE <<(v[i] + k) % W>> \o Carry(v, n, i + 1, (v[i] + k) \div W)
Norm(v) == Carry(v, N, 1, 0)                       \* N digits and the carry

RECURSIVE Cmp(_, _, _)
Cmp(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE Cmp(a, b, i - 1)
Less(a, b) == Cmp(a, b, N) = -1

Fit(v) == LET n == Norm(v)
          IN IF n[N + 1] < 0 THEN SubSeq(Norm([i \in Dig |-> v[i] + Order[i]]), 1, N)
             ELSE IF Less(SubSeq(n, 1, N), Order) THEN SubSeq(n, 1, N)
             ELSE SubSeq(Norm([i \in Dig |-> v[i] - Order[i]]), 1, N)

Add(a, b) == Fit([i \in Dig |-> a[i] + b[i]])
Sub(a, b) == Fit([i \in Dig |-> a[i] - b[i]])
Neg(a) == Sub(Zero, a)

(* any number of 22 digits, and any number below 2^13 times the order given as digits with a carry above *)
Reduce(v, top) == LET q == v[N] + W * top
                  IN Fit([i \in Dig |-> (IF i = N THEN v[i] + W * top ELSE v[i]) - q * Order[i]])
Mod(v) == Reduce(v, 0)

RECURSIVE Horner(_, _, _, _)
Horner(a, b, i, r) ==
  IF i = 0 THEN r
  ELSE LET s == Norm([j \in Dig |-> (IF j = 1 THEN 0 ELSE r[j - 1]) + a[i] * b[j]])
           t == Reduce(SubSeq(s, 1, N), s[N + 1] + r[N])
       IN IF t[1] >= 0 THEN Horner(a, b, i - 1, t) ELSE <<>>
Mul(a, b) == IF a = Zero \/ b = Zero THEN Zero ELSE Horner(a, b, N, Zero)

Less1(v) == SubSeq(Norm([i \in Dig |-> v[i] - (IF i = 1 THEN 1 ELSE 0)]), 1, N)
Pow2(n) == [i \in Dig |-> IF i = n \div 12 + 1 THEN CASE n % 12 = 0 -> 1 [] n % 12 = 1 -> 2 [] n % 12 = 2 -> 4 [] n % 12 = 3 -> 8
             [] n % 12 = 4 -> 16 [] n % 12 = 5 -> 32 [] n % 12 = 6 -> 64 [] n % 12 = 7 -> 128 [] n % 12 = 8 -> 256
             [] n % 12 = 9 -> 512 [] n % 12 = 10 -> 1024 [] OTHER -> 2048 ELSE 0]
(* plain sum of numbers, not modulo anything; Less1 is plain too *)
Plain(u, v) == SubSeq(Norm([i \in Dig |-> u[i] + v[i]]), 1, N)
Fits64(a) == \A i \in Dig : i > 6 => a[i] = 0 /\ a[6] < 16
=============================================================================
