----------------------------- MODULE RangeBatch -----------------------------
(* Verifying several range proofs at once.  Every proof stands for two        *)
(* equations; what a dishonest prover leaves over in them is a number that he *)
(* chooses himself (by taux for the first, by mu for the second; both can be  *)
(* chosen after every challenge that the equation depends on).  The verifier  *)
(* adds the equations up with weights.  Drawn freely for every equation, the  *)
(* weights leave no combination of wrong equations that always adds up to     *)
(* zero; Weak lists the ways of drawing them that would.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT MaxBatch
P == 5
Left == {-1, 0, 1}
VARIABLES es, how
Ns == 1..MaxBatch
How == {"free", "per proof", "per equation", "one", "consecutive"}
Init == /\ \E n \in Ns : es \in [1..n -> [y : Left, z : Left]]
        /\ how \in How
Next == UNCHANGED <<es, how>>
N == Len(es)
Weights == LET F == 1..(P - 1) IN
  CASE how = "free" -> [1..N -> F \X F]
    [] how = "per proof" -> {[k \in 1..N |-> <<a[k], a[k]>>] : a \in [1..N -> F]}
    [] how = "per equation" -> {[k \in 1..N |-> <<a, b>>] : a \in F, b \in F}
    [] how = "one" -> {[k \in 1..N |-> <<1, 1>>]}
    [] how = "consecutive" -> {[k \in 1..N |-> <<(2 * k) % P, (2 * k + 1) % P>>]}
RECURSIVE Total(_, _)
Total(w, k) == IF k = 0 THEN 0 ELSE Total(w, k - 1) + w[k][1] * es[k].y + w[k][2] * es[k].z
Passes == \A w \in Weights : Total(w, N) % P = 0
Right == \A k \in 1..N : es[k].y = 0 /\ es[k].z = 0
Complete == Right => Passes
Sound == how = "free" => (Passes <=> Right)
\* each of the other ways lets some wrong batch through
Weak == (how = "per proof" /\ N = 1 /\ es[1].y = 1 /\ es[1].z = -1) => (Passes /\ ~Right)
Weak2 == (how = "per equation" /\ N = 2 /\ es[1].y = 1 /\ es[2].y = -1 /\ es[1].z = 0 /\ es[2].z = 0) => (Passes /\ ~Right)
Emit == how = "free" => PrintT("@V " \o ToJson([es |-> es, ok |-> Passes]))
=============================================================================
