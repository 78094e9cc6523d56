------------------------------ MODULE Borromean ------------------------------
(* The older range proofs: one commitment per bit and a Borromean signature   *)
(* that each of them commits to zero or to its power of two.  As in           *)
(* RangeProof the protocol runs exactly, over the field of P elements.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Bits, Seeds, Pairs

P == 46337
Mul(a, b) == (a * b) % P
Neg(a) == (P - a) % P
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE (SumTo(f, n - 1) + f[n]) % P
Sum(f) == SumTo(f, Len(f))
RECURSIVE Mix(_, _)
Mix(s, k) == IF k = 0 THEN 7919 ELSE LET q == Mix(s, k - 1) IN (Mul(q, q) + Mul(s[k], 31337) + Mul(q, 271) + 4241 + k) % P
HS(s) == LET q == Mix(s, Len(s)) IN LET r == Mul(q, Mul(q, q)) IN IF r = 0 THEN 1 ELSE r
g == HS(<<1>>)
h == HS(<<2>>)
Two(b) == 2 ^ b
B == 1..Bits

Classes == {"0", "1", "mid", "top", "odd"}
Val(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "mid" -> Two(Bits - 1) [] c = "top" -> Two(Bits) - 1 [] c = "odd" -> 5

\* key: the hash function that is used.  Every history runs with two of them, and a
\* proof is accepted if both accept it: the field is small, and with one of them
\* some of the many altered proofs are accepted by chance.
Prove(c, seed, key) ==
  LET v == Val(c)
      HK(s) == HS(<<key>> \o s)
      bit(k) == (v \div Two(k - 1)) % 2
      rnd(a, k) == HS(<<seed, key, a, k>>)
      ai == [k \in B |-> rnd(1, k)]
      alpha == [k \in B |-> rnd(2, k)]
      Ci == [k \in B |-> (Mul(ai[k], g) + (IF bit(k) = 1 THEN Mul(Two(k - 1), h) ELSE 0)) % P]
      CiH == [k \in B |-> (Ci[k] + P - Mul(Two(k - 1), h)) % P]
      \* a zero bit: its second half is simulated; a one bit: its first half is
      Lz == [k \in B |-> LET L0 == Mul(alpha[k], g) IN
               IF bit(k) = 0 THEN (Mul(rnd(3, k), g) + Mul(HK(<<L0>>), CiH[k])) % P ELSE L0]
      ee == HK(Lz)
      s0 == [k \in B |-> IF bit(k) = 0 THEN (alpha[k] + P - Mul(ai[k], ee)) % P ELSE rnd(4, k)]
      s1 == [k \in B |-> IF bit(k) = 0 THEN rnd(3, k)
               ELSE LET LL == (Mul(s0[k], g) + Mul(ee, Ci[k])) % P IN (alpha[k] + P - Mul(ai[k], HK(<<LL>>))) % P]
  IN [C |-> Sum(Ci), Ci |-> Ci, s0 |-> s0, s1 |-> s1, ee |-> ee, key |-> key]

AcceptsOne(p) ==
  IF Len(p.Ci) # Bits \/ Len(p.s0) # Bits \/ Len(p.s1) # Bits THEN FALSE
  ELSE LET LL == [k \in B |-> (Mul(p.s0[k], g) + Mul(p.ee, p.Ci[k])) % P]
           L1 == [k \in B |-> (Mul(p.s1[k], g) + Mul(HS(<<p.key, LL[k]>>), (p.Ci[k] + P - Mul(Two(k - 1), h)) % P)) % P]
       IN p.C = Sum(p.Ci) /\ p.ee = HS(<<p.key>> \o L1)

Accepts(ps) == \A k \in 1..2 : AcceptsOne(ps[k])

al(k, e, i, j) == [k |-> k, e |-> e, i |-> i, j |-> j]
Alterations ==
  {al(k, e, i, 0) : k \in {"inc", "neg", "zero"}, e \in {"s0", "s1"}, i \in B}
  \cup {al(k, "ee", 0, 0) : k \in {"inc", "neg", "zero"}}
  \cup {al(k, "C", 0, 0) : k \in {"add G", "add H", "add top", "neg", "id"}}
  \cup {al(k, "Ci", i, 0) : k \in {"add G", "add H", "flip", "neg", "id"}, i \in B}
  \cup {al(k, "Ci", i, j) : k \in {"swap", "move G", "move H"}, i \in B, j \in B}
  \cup {al("swap", e, i, j) : e \in {"s0", "s1"}, i \in B, j \in B}
  \cup {al("swap s", "s0", i, 0) : i \in B}
  \cup {al(k, e, 0, 0) : k \in {"drop", "more"}, e \in {"Ci", "s0", "s1", "all"}}
Num(k, x) == CASE k = "inc" -> (x + 1) % P [] k = "neg" -> Neg(x) [] k = "zero" -> 0 [] k = "id" -> 0
               [] k = "add G" -> (x + g) % P [] k = "add H" -> (x + h) % P [] k = "add top" -> (x + Mul(Two(Bits), h)) % P
Again(s) == Append(s, s[Len(s)])
Cut(s) == SubSeq(s, 1, Len(s) - 1)
Alter(p, d, c) ==
  CASE d.k = "swap" -> [p EXCEPT ![d.e][d.i] = p[d.e][d.j], ![d.e][d.j] = p[d.e][d.i]]
    [] d.k = "swap s" -> [p EXCEPT !.s0[d.i] = p.s1[d.i], !.s1[d.i] = p.s0[d.i]]
    [] d.k \in {"move G", "move H"} -> IF d.i = d.j THEN p ELSE
         LET u == IF d.k = "move G" THEN g ELSE h IN [p EXCEPT !.Ci[d.i] = (@ + u) % P, !.Ci[d.j] = (@ + P - u) % P]
    [] d.k = "flip" -> \* the other value of the bit, and the sum follows
         LET u == Mul(Two(d.i - 1), h)  q == IF (Val(c) \div Two(d.i - 1)) % 2 = 1 THEN Neg(u) ELSE u
         IN [p EXCEPT !.Ci[d.i] = (@ + q) % P, !.C = (@ + q) % P]
    [] d.k \in {"drop", "more"} -> LET f(s) == IF d.k = "drop" THEN Cut(s) ELSE Again(s)
                                       inn(e) == d.e \in {e, "all"} IN
         [p EXCEPT !.Ci = IF inn("Ci") THEN f(@) ELSE @, !.s0 = IF inn("s0") THEN f(@) ELSE @, !.s1 = IF inn("s1") THEN f(@) ELSE @]
    [] OTHER -> IF d.i = 0 THEN [p EXCEPT ![d.e] = Num(d.k, @)] ELSE [p EXCEPT ![d.e][d.i] = Num(d.k, @)]

VARIABLES ph, cls, p, orig, hist
vars == <<ph, cls, p, orig, hist>>
Init == /\ cls \in Classes /\ hist = <<>> /\ ph = "proved"
        /\ \E s \in Seeds : p = <<Prove(cls, s, 1), Prove(cls, s, 2)>> /\ orig = p
Adversary == /\ ph = "proved" /\ Len(hist) < (IF Pairs THEN 2 ELSE 1)
             /\ (Len(hist) = 0 \/ (Len(p[1].Ci) = Bits /\ Len(p[1].s0) = Bits /\ Len(p[1].s1) = Bits))
             /\ \E d \in Alterations : p' = <<Alter(p[1], d, cls), Alter(p[2], d, cls)>> /\ hist' = Append(hist, d)
             /\ UNCHANGED <<ph, cls, orig>>
Verify == ph = "proved" /\ ph' = "done" /\ UNCHANGED <<cls, p, orig, hist>>
Next == Adversary \/ Verify
Spec == Init /\ [][Next]_vars
Complete == ph = "done" /\ p = orig => Accepts(p)
Sound == ph = "done" /\ Accepts(p) => p = orig
Emit == ph # "done" \/ PrintT("@V " \o ToJson([cls |-> cls, hist |-> hist, ok |-> Accepts(p)]))
=============================================================================
