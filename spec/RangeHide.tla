------------------------------ MODULE RangeHide ------------------------------
(* What a range proof tells about the value.  One bit, a field of three       *)
(* elements, everything an observer could see before the inner product        *)
(* argument (which only shortens it).  The proof hides the value when the     *)
(* possible observations are the same for both values; it does when all of    *)
(* its random elements are fresh, and does not when any single one of them    *)
(* is known in advance.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

P == 3
F == 0..(P - 1)
Names == {"gamma", "alpha", "rho", "tau1", "tau2", "sL", "sR"}
m(x) == x % P

\* commitments keep their coefficients apart: the observer knows no logarithms,
\* but a coefficient of G that is fresh hides all others
Observe(v, r, y, z, x) ==
  LET aL == v  aR == v - 1
      l0 == aL - z
      r0 == aR + z + z * z          \* one bit: y^0 = 1
      t1 == l0 * r.sR + r.sL * r0
      t2 == r.sL * r.sR
      l == m(l0 + x * r.sL)
      q == m(r0 + x * r.sR)
  IN <<m(r.gamma + v), m(r.alpha + aL + aR), m(r.rho + r.sL + r.sR), m(r.tau1 + t1), m(r.tau2 + t2),
       m(r.tau1 * x + r.tau2 * x * x + z * z * r.gamma), m(r.alpha + x * r.rho), l, q, m(l * q)>>

VARIABLES fixed, ch
Init == /\ fixed \in {{}} \cup {{n} : n \in Names} \cup {{"sL", "sR"}}
        /\ ch \in {<<y, z, x>> : y \in {1, 2}, z \in {1, 2}, x \in {1, 2}}
Next == UNCHANGED <<fixed, ch>>
Draws == {r \in [Names -> F] : \A n \in fixed : r[n] = 1}
Seen(v) == {Observe(v, r, ch[1], ch[2], ch[3]) : r \in Draws}
\* the map from draws to observations has equally large fibres, so equal sets are equal distributions
Hides == Seen(0) = Seen(1)
Hidden == Hides <=> fixed = {}
Regular == Cardinality(Draws) % Cardinality(Seen(0)) = 0 /\ Cardinality(Seen(0)) = Cardinality(Seen(1))
Emit == PrintT("@V " \o ToJson([fixed |-> fixed, ch |-> ch, hides |-> Hides]))
=============================================================================
