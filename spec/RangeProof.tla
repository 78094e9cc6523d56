----------------------------- MODULE RangeProof -----------------------------
(* Aggregated range proofs (Bulletproofs): the prover, an adversary who       *)
(* alters proofs, and the verifier of a batch of proofs.  The protocol runs   *)
(* exactly, over the field of P elements; a point is its discrete logarithm   *)
(* and a component of small order; the generators and the hash function are   *)
(* fixed mixing functions.  Bits is the number of bits of a value (the code   *)
(* has 64).  Values are named by class, so that a behaviour can be replayed   *)
(* with the code's 64 bits.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Bits,          \* bits per value
          LogBits,
          MaxVals,       \* values in a proof
          MaxBatch,      \* proofs in a batch
          Adv,           \* whether there is an adversary
          Pairs,         \* also two alterations in one history
          Seeds

P == 46337
M_(x) == x % P
Mul(a, b) == (a * b) % P
Neg(a) == (P - a) % P
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE LET h == Pow(a, n \div 2) IN IF n % 2 = 0 THEN Mul(h, h) ELSE Mul(Mul(h, h), a)
Inv(a) == Pow(a, P - 2)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE (SumTo(f, n - 1) + f[n]) % P
Sum(f) == SumTo(f, Len(f))
Dot(a, b) == Sum([k \in 1..Len(a) |-> Mul(a[k], b[k])])
RECURSIVE Mix(_, _)
Mix(s, k) == IF k = 0 THEN 7919 ELSE LET q == Mix(s, k - 1) IN (Mul(q, q) + Mul(s[k], 31337) + Mul(q, 271) + 4241 + k) % P
HS(s) == LET q == Mix(s, Len(s)) IN LET r == Mul(q, Mul(q, q)) IN IF r = 0 THEN 1 ELSE r

g == HS(<<1>>)
h == HS(<<2>>)
Gi == [k \in 1..64 |-> HS(<<3, k>>)]
Hi == [k \in 1..64 |-> HS(<<4, k>>)]

Pt(x) == [x |-> x, t |-> 0]
Enc(p) == p.x * 8 + p.t          \* t: component of small order
Sc(x) == [v |-> x, r |-> TRUE]      \* r: encoded reduced
HP(s) == HS([k \in 1..Len(s) |-> Enc(s[k]) % P] \o [k \in 1..Len(s) |-> Enc(s[k]) \div P])

RECURSIVE Log2Up(_)
Log2Up(m) == IF m <= 1 THEN 0 ELSE 1 + Log2Up((m + 1) \div 2)
Two(b) == 2 ^ b

(* ---- values ---- *)
Top == Two(Bits) - 1
Classes == {"0", "1", "mid", "top", "over", "over+1", "double", "minus"}
Val(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "mid" -> Two(Bits - 1) [] c = "top" -> Top
            [] c = "over" -> Top + 1 [] c = "over+1" -> Top + 2 [] c = "double" -> 2 * (Top + 1) [] c = "minus" -> P - 1
InRange(c) == c \in {"0", "1", "mid", "top"}
Default(k) == <<"mid", "top", "0", "1">>[((k - 1) % 4) + 1]

(* ---- prover ---- *)
RECURSIVE Fold(_, _, _, _, _, _, _, _)
Fold(G, H, a, b, u, hc, Ls, Rs) ==
  IF Len(a) = 1 THEN [L |-> Ls, R |-> Rs, a |-> a[1], b |-> b[1]]
  ELSE LET n == Len(a) \div 2
           lo(s) == SubSeq(s, 1, n)
           hi(s) == SubSeq(s, n + 1, 2 * n)
           Lp == Pt((Dot(lo(a), hi(G)) + Dot(hi(b), lo(H)) + Mul(Dot(lo(a), hi(b)), u)) % P)
           Rp == Pt((Dot(hi(a), lo(G)) + Dot(lo(b), hi(H)) + Mul(Dot(hi(a), lo(b)), u)) % P)
           w == HS(<<hc, HP(<<Lp>>), HP(<<Rp>>)>>)
           wi == Inv(w)
       IN Fold([k \in 1..n |-> (Mul(wi, G[k]) + Mul(w, G[k + n])) % P],
               [k \in 1..n |-> (Mul(w, H[k]) + Mul(wi, H[k + n])) % P],
               [k \in 1..n |-> (Mul(w, a[k]) + Mul(wi, a[k + n])) % P],
               [k \in 1..n |-> (Mul(wi, b[k]) + Mul(w, b[k + n])) % P],
               u, w, Append(Ls, Lp), Append(Rs, Rp))

Prove(cs, seed) ==
  LET m == Len(cs)  lM == Log2Up(m)  MN == Two(lM) * Bits
      vals == [k \in 1..m |-> Val(cs[k])]
      rnd(a, k) == HS(<<seed, a, k>>)
      gam == [k \in 1..m |-> rnd(1, k)]
      V == [k \in 1..m |-> Pt((Mul(gam[k], g) + Mul(vals[k], h)) % P)]
      j(k) == (k - 1) \div Bits + 1      \* value a bit belongs to
      bit(k) == (k - 1) % Bits
      aL == [k \in 1..MN |-> IF j(k) <= m THEN (vals[j(k)] \div Two(bit(k))) % 2 ELSE 0]
      aR == [k \in 1..MN |-> (aL[k] - 1 + P) % P]
      sL == [k \in 1..MN |-> rnd(2, k)]
      sR == [k \in 1..MN |-> rnd(3, k)]
      G == SubSeq(Gi, 1, MN)  H == SubSeq(Hi, 1, MN)
      alpha == rnd(4, 0)  rho == rnd(5, 0)  tau1 == rnd(6, 0)  tau2 == rnd(7, 0)
      A == Pt((Mul(alpha, g) + Dot(aL, G) + Dot(aR, H)) % P)
      S == Pt((Mul(rho, g) + Dot(sL, G) + Dot(sR, H)) % P)
      hv == HP(V)
      y == HS(<<hv, HP(<<A, S>>)>>)
      z == HS(<<y>>)
      yp == [k \in 1..MN |-> Pow(y, k - 1)]
      zp(k) == Pow(z, k)
      l0 == [k \in 1..MN |-> (aL[k] - z + P) % P]
      r0 == [k \in 1..MN |-> (Mul(yp[k], (aR[k] + z) % P) + Mul(zp(1 + j(k)), Two(bit(k)))) % P]
      r1 == [k \in 1..MN |-> Mul(sR[k], yp[k])]
      t1 == (Dot(l0, r1) + Dot(sL, r0)) % P
      t2 == Dot(sL, r1)
      T1 == Pt((Mul(tau1, g) + Mul(t1, h)) % P)
      T2 == Pt((Mul(tau2, g) + Mul(t2, h)) % P)
      x == HS(<<z, HP(<<T1, T2>>)>>)
      l == [k \in 1..MN |-> (l0[k] + Mul(x, sL[k])) % P]
      r == [k \in 1..MN |-> (r0[k] + Mul(x, r1[k])) % P]
      t == Dot(l, r)
      taux == (Mul(tau1, x) + Mul(tau2, Mul(x, x)) + Sum([k \in 1..m |-> Mul(zp(k + 1), gam[k])])) % P
      mu == (alpha + Mul(x, rho)) % P
      xip == HS(<<x, taux, mu, t>>)
      yi == Inv(y)
      f == Fold(G, [k \in 1..MN |-> Mul(Pow(yi, k - 1), H[k])], l, r, Mul(xip, h), xip, <<>>, <<>>)
  IN [V |-> V, A |-> A, S |-> S, T1 |-> T1, T2 |-> T2, taux |-> Sc(taux), mu |-> Sc(mu), t |-> Sc(t),
      L |-> f.L, R |-> f.R, a |-> Sc(f.a), b |-> Sc(f.b)]

(* ---- verifier ---- *)
RECURSIVE Challenges(_, _, _)
Challenges(p, hc, k) == IF k > Len(p.L) THEN <<>>
  ELSE LET w == HS(<<hc, HP(<<p.L[k]>>), HP(<<p.R[k]>>)>>) IN <<w>> \o Challenges(p, w, k + 1)

Shape(p) == /\ Len(p.V) >= 1
            /\ Len(p.L) = Len(p.R)
            /\ Len(p.L) = LogBits + Log2Up(Len(p.V))
            /\ p.taux.r /\ p.mu.r /\ p.t.r /\ p.a.r /\ p.b.r
Equations(p) ==
  LET m == Len(p.V)  lM == Log2Up(m)  MN == Two(lM) * Bits  R == Len(p.L)
      hv == HP(p.V)
      y == HS(<<hv, HP(<<p.A, p.S>>)>>)
      z == HS(<<y>>)
      x == HS(<<z, HP(<<p.T1, p.T2>>)>>)
      xip == HS(<<x, p.taux.v, p.mu.v, p.t.v>>)
      w == Challenges(p, xip, 1)
      yp == [k \in 1..MN |-> Pow(y, k - 1)]
      ys == Sum(yp)
      z2 == Mul(z, z)
      delta == (Mul(z, ys) - Mul(z2, ys) + P - Sum([q \in 1..Two(lM) |-> Mul(Pow(z, q + 2), Top)]) + P) % P
      eq1 == (Mul(p.t.v, h) + Mul(p.taux.v, g)) % P
             = (Sum([q \in 1..m |-> Mul(Pow(z, q + 1), p.V[q].x)]) + Mul(delta, h) + Mul(x, p.T1.x) + Mul(Mul(x, x), p.T2.x)) % P
      bitOf(k, q) == ((k - 1) \div Two(q)) % 2
      wi == [q \in 1..R |-> Inv(w[q])]
      \* the challenge of round q selects by bit R - q of the index
      s == [k \in 1..MN |-> LET RECURSIVE pr(_)
                                pr(q) == IF q = 0 THEN 1 ELSE Mul(pr(q - 1), IF bitOf(k, R - q) = 1 THEN w[q] ELSE wi[q])
                            IN pr(R)]
      yi == Inv(y)
      jj(k) == (k - 1) \div Bits + 1
      gs == [k \in 1..MN |-> (Mul(p.a.v, s[k]) + z) % P]
      hs == [k \in 1..MN |-> (Mul(Mul(p.b.v, Pow(yi, k - 1)), Inv(s[k]))
                              + P - Mul((Mul(z, yp[k]) + Mul(Pow(z, 1 + jj(k)), Two((k - 1) % Bits))) % P, Pow(yi, k - 1))) % P]
      lhs == (p.A.x + Mul(x, p.S.x) + Neg(Mul(p.mu.v, g)) + Mul(Mul(xip, (p.t.v - Mul(p.a.v, p.b.v) + P) % P), h)
              + Sum([q \in 1..R |-> (Mul(Mul(w[q], w[q]), p.L[q].x) + Mul(Mul(wi[q], wi[q]), p.R[q].x)) % P])) % P
      rhs == (Dot(gs, SubSeq(Gi, 1, MN)) + Dot(hs, SubSeq(Hi, 1, MN))) % P
  IN eq1 /\ lhs = rhs
Accepts(p) == IF Shape(p) THEN Equations(p) ELSE FALSE
Verdict(ps) == Len(ps) > 0 /\ \A k \in 1..Len(ps) : Accepts(ps[k])

(* ---- the adversary ---- *)
al(k, e, i, j) == [k |-> k, e |-> e, i |-> i, j |-> j]
Points == {"A", "S", "T1", "T2"}
Scalars == {"taux", "mu", "t", "a", "b"}
PKinds == {"add G", "add H", "neg", "id", "tors"}
SKinds == {"inc", "dec", "zero", "minus", "unreduced"}
Swaps == {<<"A", "S">>, <<"T1", "T2">>, <<"a", "b">>, <<"taux", "mu">>, <<"t", "a">>}
Alterations(p) ==
  {al(k, e, 0, 0) : k \in PKinds, e \in Points} \cup {al(k, e, 0, 0) : k \in SKinds, e \in Scalars}
  \cup {al(k, "V", i, 0) : k \in PKinds, i \in 1..Len(p.V)}
  \cup {al(k, e, i, 0) : k \in PKinds, e \in {"L", "R"}, i \in 1..Len(p.L)}
  \cup {al("swap", e[1], 0, 0) : e \in Swaps}
  \cup {al("swap LR", "L", i, 0) : i \in 1..Len(p.L)}
  \cup {al("swap in", e, i, j) : e \in {"L", "R"}, i \in 1..Len(p.L), j \in 1..Len(p.L)}
  \cup {al("swap in", "V", i, j) : i \in 1..Len(p.V), j \in 1..Len(p.V)}
  \cup {al(k, e, 0, 0) : k \in {"drop", "more"}, e \in {"V", "L", "R", "LR", "VLR"}}
  \cup {al("zero V", "V", 0, 0), al("scale ab", "a", 0, 0)}
SwapWith(e) == (CHOOSE s \in Swaps : s[1] = e)[2]
PAlter(k, q) == CASE k = "add G" -> [q EXCEPT !.x = (@ + g) % P] [] k = "add H" -> [q EXCEPT !.x = (@ + h) % P]
                  [] k = "neg" -> [q EXCEPT !.x = Neg(@)] [] k = "id" -> Pt(0) [] k = "tors" -> [q EXCEPT !.t = (@ + 4) % 8]
SAlter(k, q) == CASE k = "inc" -> [q EXCEPT !.v = (@ + 1) % P] [] k = "dec" -> [q EXCEPT !.v = (@ + P - 1) % P]
                  [] k = "zero" -> [q EXCEPT !.v = 0]
                  [] k = "minus" -> [q EXCEPT !.v = Neg(@)] [] k = "unreduced" -> [q EXCEPT !.r = FALSE]
Butlast(s) == IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
Again(s) == IF s = <<>> THEN s ELSE Append(s, s[Len(s)])
Alter(p, d) ==
  CASE d.k \in PKinds /\ d.i = 0 -> [p EXCEPT ![d.e] = PAlter(d.k, @)]
    [] d.k \in PKinds /\ d.i > 0 -> [p EXCEPT ![d.e][d.i] = PAlter(d.k, @)]
    [] d.k \in SKinds -> [p EXCEPT ![d.e] = SAlter(d.k, @)]
    [] d.k = "swap" -> [p EXCEPT ![d.e] = p[SwapWith(d.e)], ![SwapWith(d.e)] = p[d.e]]
    [] d.k = "swap LR" -> [p EXCEPT !.L[d.i] = p.R[d.i], !.R[d.i] = p.L[d.i]]
    [] d.k = "swap in" -> [p EXCEPT ![d.e][d.i] = p[d.e][d.j], ![d.e][d.j] = p[d.e][d.i]]
    [] d.k \in {"drop", "more"} -> LET f(s) == IF d.k = "drop" THEN Butlast(s) ELSE Again(s) IN
         [p EXCEPT !.V = IF d.e \in {"V", "VLR"} THEN f(@) ELSE @,
                   !.L = IF d.e \in {"L", "LR", "VLR"} THEN f(@) ELSE @,
                   !.R = IF d.e \in {"R", "LR", "VLR"} THEN f(@) ELSE @]
    [] d.k = "zero V" -> [p EXCEPT !.V = Append(@, Pt(0))]
    [] d.k = "scale ab" -> [p EXCEPT !.a.v = Mul(@, 2), !.b.v = Mul(@, Inv(2))]

(* ---- behaviours ---- *)
VARIABLES ph,       \* "choose", "proved", "done"
          cls,      \* the classes of the values of every proof of the batch
          ps,       \* the proofs as they are now
          orig, hist
vars == <<ph, cls, ps, orig, hist>>

OneOdd(m) == {[k \in 1..m |-> IF k = q THEN c ELSE Default(k)] : q \in 1..m, c \in Classes}
Plain(m) == [k \in 1..m |-> Default(k)]
RECURSIVE Sizes(_)
Sizes(b) == IF b = 0 THEN {<<>>} ELSE {Append(s, m) : s \in Sizes(b - 1), m \in 1..MaxVals}
Few(s) == LET RECURSIVE tot(_)
              tot(k) == IF k = 0 THEN 0 ELSE s[k] + tot(k - 1)
          IN tot(Len(s)) <= 2 + MaxVals
Batches == {<<c>> : c \in UNION {OneOdd(m) : m \in 1..MaxVals}}
           \cup {[k \in 1..Len(s) |-> Plain(s[k])] : s \in {s \in UNION {Sizes(b) : b \in 2..MaxBatch} : Few(s)}}
           \cup {<<Plain(1), Plain(m), c>> : m \in 1..2, c \in OneOdd(1) \cup OneOdd(2)}

Init == /\ ph = "choose" /\ ps = <<>> /\ orig = <<>> /\ hist = <<>>
        /\ cls \in Batches
MakeProofs == /\ ph = "choose" /\ ph' = "proved"
              /\ \E seed \in Seeds : ps' = [k \in 1..Len(cls) |-> Prove(cls[k], seed * 100 + k)]
              /\ orig' = ps' /\ UNCHANGED <<cls, hist>>
AllIn == \A k \in 1..Len(cls) : \A q \in 1..Len(cls[k]) : InRange(cls[k][q])
PlainB == \A k \in 1..Len(cls) : cls[k] = Plain(Len(cls[k]))
\* opposite alterations of two proofs, or two alterations of one
Second(b, d, b2, d2) == IF b = b2 THEN d2.k # "swap in" /\ d2 # d ELSE d2.e = d.e /\ d2.i = d.i
Adversary == /\ Adv /\ ph = "proved" /\ AllIn /\ PlainB
             /\ Len(hist) < (IF Pairs /\ (Len(ps) = 2 \/ Len(ps[1].V) = 1) THEN 2 ELSE 1)
             /\ \E b \in 1..Len(ps) : \E d \in Alterations(orig[b]) :
                  /\ d.i <= (IF d.e \in {"V", "L", "R"} THEN Len(ps[b][d.e]) ELSE 0)
                  /\ d.j <= (IF d.e \in {"V", "L", "R"} THEN Len(ps[b][d.e]) ELSE 0)
                  /\ d.k = "swap LR" => d.i <= Len(ps[b].R)
                  /\ IF hist = <<>> THEN TRUE ELSE Second(hist[1].b, hist[1].d, b, d)
                  /\ ps' = [ps EXCEPT ![b] = Alter(@, d)]
                  /\ hist' = Append(hist, [b |-> b, d |-> d])
             /\ UNCHANGED <<ph, cls, orig>>
Exchange == /\ Adv /\ ph = "proved" /\ AllIn /\ PlainB /\ hist = <<>> /\ Len(ps) = 2
            /\ \E e \in {"V", "A", "LR", "ab", "taux", "all"} :
                 /\ ps' = LET p == ps[1]  q == ps[2]
                              x(u, w) == CASE e = "V" -> [u EXCEPT !.V = w.V] [] e = "A" -> [u EXCEPT !.A = w.A]
                                           [] e = "LR" -> [u EXCEPT !.L = w.L, !.R = w.R]
                                           [] e = "ab" -> [u EXCEPT !.a = w.a, !.b = w.b]
                                           [] e = "taux" -> [u EXCEPT !.taux = w.taux] [] e = "all" -> w
                          IN <<x(p, q), x(q, p)>>
                 /\ hist' = <<[b |-> 0, d |-> al("exchange", e, 0, 0)]>>
            /\ UNCHANGED <<ph, cls, orig>>
Verify == /\ ph = "proved" /\ ph' = "done" /\ UNCHANGED <<cls, ps, orig, hist>>
Next == MakeProofs \/ Adversary \/ Exchange \/ Verify
Spec == Init /\ [][Next]_vars

Same == \/ ps = orig
        \/ Len(ps) = 2 /\ ps = <<orig[2], orig[1]>>
Complete == ph = "done" /\ AllIn /\ Same => Verdict(ps)
Sound == ph = "done" /\ Verdict(ps) => AllIn /\ Same
Emit == ph # "done" \/ PrintT("@V " \o ToJson([cls |-> cls, hist |-> hist, ok |-> Verdict(ps)]))
=============================================================================
