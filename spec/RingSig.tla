------------------------------- MODULE RingSig -------------------------------
(* The ring signature schemes, symbolically.  Scalars and (discrete logs of)  *)
(* points are formal polynomials over unknowns; hashing to a scalar and to a  *)
(* point are oracles with tables, a new query getting a new unknown.  Equal   *)
(* polynomials are equal whatever the unknowns are, different ones differ for *)
(* all but a negligible part, so the verdicts below hold for every key, mask, *)
(* message and randomness.  Signing and verifying walk round the ring member  *)
(* by member; in between anybody may alter one thing.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, SequencesExt

CONSTANTS MaxRing, MaxRows, BigRings, Deep

(* ---- polynomials ---- *)
A(t, k) == <<t, k>>
Zero == [x \in {} |-> 0]
Mono(a) == [x \in {a} |-> 1]
Var(t, k) == [m \in {Mono(A(t, k))} |-> 1]
One == [m \in {[x \in {} |-> 0]} |-> 1]
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Add(p, q) == LET D == DOMAIN p \cup DOMAIN q IN [m \in {m \in D : At(p, m) + At(q, m) # 0} |-> At(p, m) + At(q, m)]
Neg(p) == [m \in DOMAIN p |-> 0 - p[m]]
Sub(p, q) == Add(p, Neg(q))
MulM(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> At(a, x) + At(b, x)]
MulMono(p, b, k) == [m \in {MulM(a, b) : a \in DOMAIN p} |-> p[CHOOSE a \in DOMAIN p : MulM(a, b) = m] * k]
Mul(p, q) == FoldSet(LAMBDA b, acc : Add(acc, MulMono(p, b, q[b])), Zero, DOMAIN q)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), Sum(Tail(s)))

(* ---- oracles ---- *)
Find(tab, t) == IF \E k \in 1..Len(tab) : tab[k] = t THEN CHOOSE k \in 1..Len(tab) : tab[k] = t ELSE Len(tab) + 1
Ask(tab, t) == IF \E k \in 1..Len(tab) : tab[k] = t THEN tab ELSE Append(tab, t)
RECURSIVE AskAll(_, _)
AskAll(tab, ts) == IF ts = <<>> THEN tab ELSE AskAll(Ask(tab, Head(ts)), Tail(ts))

(* ---- scenarios ---- *)
Schemes == {"schnorr", "lsag", "mlsag", "mlsagfull", "clsag"}
Linked(s) == s # "schnorr"
Summed(s) == s \in {"schnorr", "lsag"}               \* one hash over the whole ring, challenges add up
Money(s) == s \in {"mlsag", "mlsagfull", "clsag"}    \* also proves a commitment to zero
MinRing(s) == IF s \in {"mlsag", "mlsagfull"} THEN 2 ELSE 1
Rows(s, m) == IF s = "mlsag" THEN 2 ELSE IF s = "mlsagfull" THEN m + 1 ELSE 1     \* responses per member

Wrong(s, n) == {"ok"} \cup (IF s = "schnorr" THEN {} ELSE {"key", "place"})
               \cup (IF Money(s) THEN {"mask", "value"} ELSE {})
               \cup (IF s = "lsag" THEN {"image"} ELSE {})
               \cup (IF s \in {"mlsag", "mlsagfull"} THEN {"shared"} ELSE {})

Alterations(s, n, m) ==
  LET I == 1..n  J == 1..m  R == 1..Rows(s, m)
      a(k, i, j) == [k |-> k, i |-> i, j |-> j]
  IN {a("msg", 0, 0)}
     \cup {a(k, i, j) : k \in {"key other", "key shift"}, i \in I, j \in J}
     \cup {a(k, i, j) : k \in {"ss shift", "ss zero", "ss neg"}, i \in I, j \in R}
     \cup {a("ss copy", i, j) : i \in I, j \in I}
     \cup {a(k, i, j) : k \in {"swap", "swap ring", "swap ss"}, i \in I, j \in I}
     \cup {a(k, 0, 0) : k \in {"drop ring", "drop ss", "drop both", "more ring", "more ss", "more both", "all zero"}}
     \cup (IF s = "schnorr" THEN {} ELSE {a(k, i, j) : k \in {"image shift", "image neg", "image small"}, i \in {0}, j \in J} \cup {a("image id", 0, j) : j \in J} \cup {a("image of", i, j) : i \in I, j \in J})
     \cup (IF Summed(s) THEN {a(k, i, 0) : k \in {"cs shift", "cs zero"}, i \in I} \cup {a("cs move", i, j) : i \in I, j \in I} ELSE {a("c0 shift", 0, 0), a("c0 zero", 0, 0), a("c0 at", 1, 0), a("rotate", 0, 0)})
     \cup (IF Money(s) THEN {a("com shift", i, j) : i \in I, j \in J} \cup {a("com swap", i, j) : i \in I, j \in I} \cup {a("off shift", i, 0) : i \in 1..(IF s = "mlsagfull" THEN 2 ELSE 1)} \cup {a("value", 0, 0)} ELSE {})
     \cup (IF s = "clsag" THEN {a(k, 0, 0) : k \in {"D shift", "D id", "D neg"}} ELSE {})
     \cup (IF s = "mlsagfull" THEN {a("drop image", 0, 0), a("swap image", 0, 0)} ELSE {})

Useful(a, n, m) ==
  CASE a.k \in {"ss copy", "cs move"} -> a.i # a.j
    [] a.k \in {"swap", "swap ring", "swap ss", "com swap"} -> a.i < a.j
    [] a.k \in {"rotate", "c0 at", "drop ring", "drop ss", "drop both"} -> n >= 2
    [] a.k \in {"swap image", "drop image"} -> m >= 2
    [] OTHER -> TRUE

None == [k |-> "none", i |-> 0, j |-> 0]
Scenarios ==
  {[s |-> s, n |-> n, r |-> r, m |-> m, w |-> w, a |-> a] :
     s \in Schemes, n \in 1..MaxRing \cup BigRings, r \in 1..Max(BigRings \cup {MaxRing}), m \in 1..MaxRows,
     w \in {"ok", "key", "place", "mask", "value", "image", "shared"}, a \in {None}}
Good(c) == /\ c.n >= MinRing(c.s) /\ c.r <= c.n
           /\ (c.s = "schnorr" => c.n = 1)
           /\ (c.m > 1 => c.s = "mlsagfull")
           /\ c.w \in Wrong(c.s, c.n)
           /\ (c.w \in {"place"} => c.n >= 2)
           /\ (c.n \in BigRings => c.m = 1)
           /\ (c.w = "shared" => c.m = 1)
Plain == {c \in Scenarios : Good(c)}
(* large rings: honest, and a few alterations at the ends and beside the real member *)
Altered == UNION {
   {[c EXCEPT !.a = a] : a \in {a \in Alterations(c.s, c.n, c.m) :
        /\ Useful(a, c.n, c.m)
        /\ (c.n \in BigRings => /\ a.k \in {"msg", "key shift", "ss shift", "com shift", "swap", "cs shift"}
                                /\ a.i \in {0, 1, c.r, c.n} /\ a.j \in {0, 1, c.n})
        /\ (~Deep /\ c.n = MaxRing => a.i \in {0, 1, c.r, c.n})}}
   : c \in {c \in Plain : c.w = "ok"}}

(* ---- the public data of a scenario ---- *)
X(i, j) == Var("x", 10 * i + j)                 \* secret keys
B(j) == Var("b", j)                             \* amounts, times H
HH == Var("H", 0)
ComMask(i, j) == Var("y", 10 * i + j)
Com(c, i, j) == IF i = c.r THEN Add(ComMask(i, j), Mul(B(j), HH)) ELSE Var("q", 10 * i + j)
Outs(c) == IF c.s = "mlsagfull"
           THEN <<Add(Var("o", 1), Mul(Sub(Sum([j \in 1..c.m |-> B(j)]), Var("f", 0)), HH)), Mul(Var("f", 0), HH)>>
           ELSE <<Add(Var("o", 1), Mul(B(1), HH))>>
OffMask(c) == Var("o", 1)

VARIABLES sc,       \* scenario
          ph,       \* "sign", "close", "alter", "verify", "judge", "done"
          i, c,     \* member at which the walk is, its challenge
          orc, hps, \* oracle tables
          acc,      \* transcript collected (summed schemes)
          v,        \* what is signed, and then shown to the verifier
          left,     \* members still to visit
          verdict
vars == <<sc, ph, i, c, orc, hps, acc, v, left, verdict>>

HpOf(tab, P) == Var("hp", Find(tab, P))
CzOf(w, k) == Sub(Sum(w.C[k]), Sum(w.off))

(* one member's share of the transcript *)
Item(w, tab, o, k, cc, s, s0) ==
  LET P == w.P[k]
      h(j) == HpOf(tab, P[j])
      m == Len(P)
      mu(t) == Var("c", Find(o, <<t, Zero, w.P, w.C, w.off, w.I, <<w.D>>>>))
  IN CASE s = "schnorr" -> <<P[1], Add(Mul(cc, P[1]), s0[1])>>
       [] s = "lsag" -> <<Add(Mul(cc, P[1]), s0[1]), Add(Mul(s0[1], h(1)), Mul(cc, w.I[1]))>>
       [] s \in {"mlsag", "mlsagfull"} ->
            FlattenSeq([j \in 1..m |-> <<P[j], Add(s0[j], Mul(cc, P[j])), Add(Mul(s0[j], h(j)), Mul(cc, w.I[j]))>>])
            \o <<CzOf(w, k), Add(s0[m + 1], Mul(cc, CzOf(w, k)))>>
       [] s = "clsag" ->
            <<Add(s0[1], Mul(cc, Add(Mul(mu("agg0"), P[1]), Mul(mu("agg1"), CzOf(w, k))))),
              Add(Mul(s0[1], h(1)), Mul(cc, Add(Mul(mu("agg0"), w.I[1]), Mul(mu("agg1"), w.D))))>>

(* the first item of the signer is made of commitments only *)
First(w, tab, k, s, al) ==
  LET P == w.P[k]  m == Len(P)  h(j) == HpOf(tab, P[j])
  IN CASE s = "schnorr" -> <<P[1], al[1]>>
       [] s = "lsag" -> <<al[1], Mul(al[1], h(1))>>
       [] s \in {"mlsag", "mlsagfull"} -> FlattenSeq([j \in 1..m |-> <<P[j], al[j], Mul(al[j], h(j))>>]) \o <<CzOf(w, k), al[m + 1]>>
       [] s = "clsag" -> <<al[1], Mul(al[1], h(1))>>

Query(s, w, item) == IF s = "clsag" THEN <<"round", w.msg, w.P, w.C, w.off, <<>>, item>> ELSE <<s, w.msg, <<>>, <<>>, <<>>, <<>>, item>>
Alpha(k) == Var("al", k)
AllKeys(w) == FlattenSeq(w.P)
AskMu(s, o, w) == IF s = "clsag" THEN AskAll(o, <<<<"agg0", Zero, w.P, w.C, w.off, w.I, <<w.D>>>>, <<"agg1", Zero, w.P, w.C, w.off, w.I, <<w.D>>>>>>) ELSE o

(* the secrets the signer uses *)
Place(cn) == IF cn.w = "place" THEN (cn.r % cn.n) + 1 ELSE cn.r
Sec(cn, j) == IF cn.w = "key" /\ j = 1 THEN Add(X(cn.r, j), Var("d", 1)) ELSE X(cn.r, j)
ZSec(cn) == Add(Sub(Sum([j \in 1..cn.m |-> ComMask(cn.r, j)]), OffMask(cn)), IF cn.w = "mask" THEN Var("d", 2) ELSE Zero)

Base(cn, tab) ==
  LET n == cn.n
      keys == [k \in 1..n |-> [j \in 1..cn.m |-> X(k, j)]]
      off == IF cn.w = "value" THEN <<Add(Outs(cn)[1], Mul(Var("d", 3), HH))>> \o Tail(Outs(cn)) ELSE Outs(cn)
  IN [msg |-> Var("m", 1), P |-> keys,
      C |-> [k \in 1..n |-> [j \in 1..cn.m |-> Com(cn, k, j)]],
      off |-> off,
      I |-> IF Linked(cn.s) THEN [j \in 1..cn.m |-> Mul(IF cn.w = "image" THEN Add(Sec(cn, j), Var("d", 4)) ELSE Sec(cn, j), HpOf(tab, keys[Place(cn)][j]))] ELSE <<>>,
      D |-> IF cn.s = "clsag" THEN Mul(ZSec(cn), HpOf(tab, keys[Place(cn)][1])) ELSE Zero,
      c0 |-> Zero,
      cs |-> IF Summed(cn.s) THEN [k \in 1..n |-> Var("cr", k)] ELSE <<>>,
      ss |-> [k \in 1..n |-> [j \in 1..Rows(cn.s, cn.m) |-> Var("s", 10 * k + j)]]]

Init == /\ sc \in Plain \cup Altered
        /\ ph = "start" /\ i = 0 /\ c = Zero /\ orc = <<>> /\ hps = <<>> /\ acc = <<>> /\ left = 0 /\ verdict = "none"
        /\ v = Base(sc, <<>>)

(* The walk of the signer starts behind the real member for cyclic schemes, at the first for summed ones. *)
Start == /\ ph = "start" /\ ph' = "sign"
         /\ hps' = AskAll(hps, AllKeys(v))
         /\ LET w == Base(sc, hps') IN
            /\ v' = w
            /\ LET o == AskMu(sc.s, orc, w)
                   al == [j \in 1..Rows(sc.s, sc.m) |-> Alpha(j)]
                   k == Place(sc)
                   q == Query(sc.s, w, First(w, hps', k, sc.s, al))
               IN IF Summed(sc.s) THEN orc' = o /\ i' = 1 /\ c' = Zero /\ left' = sc.n
                  ELSE orc' = Ask(o, q) /\ c' = Var("c", Find(o, q)) /\ i' = (k % sc.n) + 1 /\ left' = sc.n - 1
         /\ UNCHANGED <<sc, acc, verdict>>

SignStep ==
  /\ ph = "sign" /\ left > 0
  /\ IF Summed(sc.s)
     THEN /\ acc' = acc \o (IF i = Place(sc) THEN First(v, hps, i, sc.s, <<Alpha(1)>>) ELSE Item(v, hps, orc, i, v.cs[i], sc.s, v.ss[i]))
          /\ UNCHANGED <<orc, c, v>>
     ELSE LET q == Query(sc.s, v, Item(v, hps, orc, i, c, sc.s, v.ss[i])) IN
          /\ orc' = Ask(orc, q) /\ c' = Var("c", Find(orc, q)) /\ acc' = acc
          /\ v' = IF i = 1 THEN [v EXCEPT !.c0 = c] ELSE v
  /\ i' = (i % sc.n) + 1 /\ left' = left - 1
  /\ UNCHANGED <<sc, ph, hps, verdict>>

Close ==
  /\ ph = "sign" /\ left = 0 /\ ph' = "alter"
  /\ LET k == Place(sc)
         mu(t) == Var("c", Find(orc, <<t, Zero, v.P, v.C, v.off, v.I, <<v.D>>>>))
         sec(j) == IF sc.s = "clsag" THEN Add(Mul(mu("agg0"), Sec(sc, 1)), Mul(mu("agg1"), ZSec(sc)))
                   ELSE IF j <= sc.m THEN Sec(sc, j) ELSE ZSec(sc)
     IN IF Summed(sc.s)
        THEN LET q == Query(sc.s, v, acc)
                 others == Sum([x \in 1..sc.n |-> IF x = k THEN Zero ELSE v.cs[x]])
                 ck == Sub(Var("c", Find(orc, q)), others)
             IN /\ orc' = Ask(orc, q)
                /\ v' = [v EXCEPT !.cs[k] = ck, !.ss[k] = <<Sub(Alpha(1), Mul(ck, Sec(sc, 1)))>>]
        ELSE /\ orc' = orc
             /\ v' = [v EXCEPT !.c0 = IF k = 1 THEN c ELSE v.c0,
                               !.ss[k] = [j \in 1..Rows(sc.s, sc.m) |-> Sub(Alpha(j), Mul(c, sec(j)))]]
  /\ UNCHANGED <<sc, i, c, hps, acc, left, verdict>>

Swap(s, x, y) == [s EXCEPT ![x] = s[y], ![y] = s[x]]
Rot(s) == Tail(s) \o <<Head(s)>>
Front1(s) == SubSeq(s, 1, Len(s) - 1)
Dl == Var("e", 1)
(* the challenge of the second member *)
SecondChal == Var("c", Find(orc, Query(sc.s, v, Item(v, hps, orc, 1, v.c0, sc.s, v.ss[1]))))

Change(w, a) ==
  CASE a.k = "none" -> w
    [] a.k = "msg" -> [w EXCEPT !.msg = Var("m", 2)]
    [] a.k = "key other" -> [w EXCEPT !.P[a.i][a.j] = Var("e", 2)]
    [] a.k = "key shift" -> [w EXCEPT !.P[a.i][a.j] = Add(@, One)]
    [] a.k = "com shift" -> [w EXCEPT !.C[a.i][a.j] = Add(@, One)]
    [] a.k = "com swap" -> [w EXCEPT !.C = Swap(@, a.i, a.j)]
    [] a.k = "off shift" -> [w EXCEPT !.off[a.i] = Add(@, One)]
    [] a.k = "value" -> [w EXCEPT !.off[1] = Add(@, HH)]
    [] a.k = "image shift" -> [w EXCEPT !.I[a.j] = Add(@, One)]
    [] a.k = "image small" -> [w EXCEPT !.I[a.j] = Add(@, Var("t", 0))]      \* plus a point of small order
    [] a.k = "image neg" -> [w EXCEPT !.I[a.j] = Neg(@)]
    [] a.k = "image id" -> [w EXCEPT !.I[a.j] = Zero]
    [] a.k = "image of" -> [w EXCEPT !.I[a.j] = Mul(Var("e", 3), HpOf(hps, w.P[a.i][a.j]))]
    [] a.k = "drop image" -> [w EXCEPT !.I = Front1(@)]
    [] a.k = "swap image" -> [w EXCEPT !.I = Swap(@, 1, 2)]
    [] a.k = "D shift" -> [w EXCEPT !.D = Add(@, One)]
    [] a.k = "D neg" -> [w EXCEPT !.D = Neg(@)]
    [] a.k = "D id" -> [w EXCEPT !.D = Zero]
    [] a.k = "ss shift" -> [w EXCEPT !.ss[a.i][a.j] = Add(@, One)]
    [] a.k = "ss zero" -> [w EXCEPT !.ss[a.i][a.j] = Zero]
    [] a.k = "ss neg" -> [w EXCEPT !.ss[a.i][a.j] = Neg(@)]
    [] a.k = "ss copy" -> [w EXCEPT !.ss[a.i] = w.ss[a.j]]
    [] a.k = "cs shift" -> [w EXCEPT !.cs[a.i] = Add(@, One)]
    [] a.k = "cs zero" -> [w EXCEPT !.cs[a.i] = Zero]
    [] a.k = "cs move" -> [w EXCEPT !.cs[a.i] = Add(@, One), !.cs[a.j] = Sub(@, One)]
    [] a.k = "c0 shift" -> [w EXCEPT !.c0 = Add(@, One)]
    [] a.k = "c0 zero" -> [w EXCEPT !.c0 = Zero]
    [] a.k = "c0 at" -> [w EXCEPT !.c0 = SecondChal]
    [] a.k = "swap" -> [w EXCEPT !.P = Swap(@, a.i, a.j), !.C = Swap(@, a.i, a.j), !.ss = Swap(@, a.i, a.j), !.cs = IF @ = <<>> THEN @ ELSE Swap(@, a.i, a.j)]
    [] a.k = "swap ring" -> [w EXCEPT !.P = Swap(@, a.i, a.j), !.C = Swap(@, a.i, a.j)]
    [] a.k = "swap ss" -> [w EXCEPT !.ss = Swap(@, a.i, a.j)]
    [] a.k = "rotate" -> [w EXCEPT !.P = Rot(@), !.C = Rot(@), !.ss = Rot(@), !.c0 = SecondChal]
    [] a.k = "drop ring" -> [w EXCEPT !.P = Front1(@), !.C = Front1(@)]
    [] a.k = "drop ss" -> [w EXCEPT !.ss = Front1(@), !.cs = IF @ = <<>> THEN @ ELSE Front1(@)]
    [] a.k = "drop both" -> [w EXCEPT !.P = Front1(@), !.C = Front1(@), !.ss = Front1(@), !.cs = IF @ = <<>> THEN @ ELSE Front1(@)]
    [] a.k = "more ring" -> [w EXCEPT !.P = Append(@, w.P[1]), !.C = Append(@, w.C[1])]
    [] a.k = "more ss" -> [w EXCEPT !.ss = Append(@, w.ss[1]), !.cs = IF @ = <<>> THEN @ ELSE Append(@, Zero)]
    [] a.k = "more both" -> [w EXCEPT !.P = Append(@, w.P[1]), !.C = Append(@, w.C[1]), !.ss = Append(@, w.ss[1]), !.cs = IF @ = <<>> THEN @ ELSE Append(@, Zero)]
    [] a.k = "all zero" -> [w EXCEPT !.c0 = Zero, !.ss = [k \in 1..Len(@) |-> [j \in 1..Len(@[k]) |-> Zero]],
                                     !.cs = [k \in 1..Len(@) |-> Zero], !.D = Zero, !.I = [k \in 1..Len(@) |-> Zero]]

Alter == /\ ph = "alter" /\ ph' = "begin"
         /\ v' = Change(v, sc.a)
         /\ UNCHANGED <<sc, i, c, orc, hps, acc, left, verdict>>

InGroup(p) == \A b \in DOMAIN p : A("t", 0) \notin DOMAIN b
(* sizes agree, key images are in the group of the base point, key images (and D) are points other than zero *)
WellFormed(w) == /\ Len(w.ss) = Len(w.P) /\ Len(w.P) >= MinRing(sc.s)
                 /\ Len(w.I) = (IF Linked(sc.s) THEN sc.m ELSE 0)
                 /\ \A k \in 1..Len(w.I) : w.I[k] # Zero /\ InGroup(w.I[k])
                 /\ (sc.s = "clsag" => w.D # Zero)

Begin == /\ ph = "begin"
         /\ IF ~WellFormed(v) THEN ph' = "done" /\ verdict' = "refused" /\ UNCHANGED <<hps, orc, i, c, acc, left>>
            ELSE /\ ph' = "verify" /\ verdict' = verdict
                 /\ hps' = AskAll(hps, AllKeys(v)) /\ orc' = AskMu(sc.s, orc, v)
                 /\ i' = 1 /\ c' = v.c0 /\ acc' = <<>> /\ left' = Len(v.P)
         /\ UNCHANGED <<sc, v>>

VerifyStep ==
  /\ ph = "verify" /\ left > 0
  /\ IF Summed(sc.s) THEN acc' = acc \o Item(v, hps, orc, i, v.cs[i], sc.s, v.ss[i]) /\ UNCHANGED <<orc, c>>
     ELSE LET q == Query(sc.s, v, Item(v, hps, orc, i, c, sc.s, v.ss[i])) IN orc' = Ask(orc, q) /\ c' = Var("c", Find(orc, q)) /\ acc' = acc
  /\ i' = i + 1 /\ left' = left - 1
  /\ UNCHANGED <<sc, ph, hps, v, verdict>>

Judge ==
  /\ ph = "verify" /\ left = 0 /\ ph' = "done"
  /\ IF Summed(sc.s)
     THEN LET q == Query(sc.s, v, acc) IN
          /\ verdict' = IF Var("c", Find(orc, q)) = Sum(v.cs) THEN "valid" ELSE "refused"
     ELSE verdict' = IF c = v.c0 THEN "valid" ELSE "refused"
  /\ UNCHANGED <<sc, i, c, orc, hps, acc, v, left>>

Next == Start \/ SignStep \/ Close \/ Alter \/ Begin \/ VerifyStep \/ Judge

(* ---- what holds ---- *)
Complete == ph = "done" /\ sc.w \in {"ok", "shared"} /\ sc.a.k = "none" => verdict = "valid"
(* A plain chain does not fix where the ring starts; what is hashed into the message does. *)
Malleable == sc.a.k = "rotate" /\ sc.s \in {"mlsag", "mlsagfull"}
Sound == ph = "done" /\ (sc.w \notin {"ok", "shared"} \/ sc.a.k # "none") /\ ~Malleable => verdict = "refused"
(* The key image depends on the key alone. *)
OneImage == ph = "alter" /\ sc.w = "ok" /\ Linked(sc.s) => \A j \in 1..sc.m : v.I[j] = Mul(X(sc.r, j), HpOf(hps, X(sc.r, j)))
Emit == ph = "done" => PrintT("@V " \o ToJson([s |-> sc.s, n |-> sc.n, r |-> sc.r, m |-> sc.m, w |-> sc.w, a |-> sc.a, free |-> Malleable, verdict |-> verdict]))
=============================================================================
