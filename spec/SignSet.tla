-------------------------------- MODULE SignSet --------------------------------
(* The tool signs a set of unsigned transactions: one device session each,    *)
(* then a signed set with the key images the wallet is to know.  Transfers    *)
(* are the outputs the wallet knows of; each transaction spends some of them, *)
(* in the wallet's order; the device's rules put the inputs in an order of    *)
(* their own (by key image).  The user may refuse on the device.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxT, MaxTx, MaxIn

VARIABLES n, listed, known, txs, order, ph, k, images, signed, records, set
vars == <<n, listed, known, txs, order, ph, k, images, signed, records, set>>

T == 1..n
Used == UNION {{txs[i][j] : j \in DOMAIN txs[i]} : i \in DOMAIN txs}
Range(x) == {x[j] : j \in DOMAIN x}

Init == /\ n \in 1..MaxT /\ listed \in BOOLEAN
        /\ known \in {{}, {1}, {n}, 1..n} /\ (~listed => known = {})
        /\ txs = <<>> /\ order = <<>> /\ ph = "plan" /\ k = 0 /\ images = <<>> /\ signed = <<>> /\ records = {} /\ set = FALSE

Perms(m) == {p \in [1..m -> 1..m] : \A a, b \in 1..m : a # b => p[a] # p[b]}
Seqs(S) == UNION {{q \in [1..m -> S] : \A a, b \in 1..m : a # b => q[a] # q[b]} : m \in 1..MaxIn}

(* one more transaction, over transfers no other one spends; ord[j] is the place in the wallet's order of the device's j-th input *)
Plan == /\ ph = "plan" /\ Len(txs) < MaxTx
        /\ \E q \in Seqs(T \ Used) : \E p \in Perms(Len(q)) : txs' = Append(txs, q) /\ order' = Append(order, p)
        /\ UNCHANGED <<n, listed, known, ph, k, images, signed, records, set>>

None == 0                 \* no image known
MaxUsed == CHOOSE t \in Used : \A u \in Used : u <= t
Begin == /\ ph = "plan" /\ txs # <<>> /\ ph' = "sign" /\ k' = 1
         /\ images' = IF listed THEN [t \in T |-> IF t \in known THEN t ELSE None]
                      ELSE [t \in 1..MaxUsed |-> None]
         /\ UNCHANGED <<n, listed, known, txs, order, signed, records, set>>

SignTx == /\ ph = "sign" /\ k <= Len(txs)
          /\ LET q == txs[k]
                 vin == [j \in DOMAIN q |-> q[order[k][j]]]           \* what the transaction's inputs spend, in its order
             IN images' = [t \in DOMAIN images |-> IF t \in Range(q)
                              THEN vin[CHOOSE j \in DOMAIN q : q[order[k][j]] = t] ELSE images[t]]
                /\ signed' = Append(signed, vin)
          /\ records' = records \cup {k} /\ k' = k + 1
          /\ UNCHANGED <<n, listed, known, txs, order, ph, set>>
Refuse == /\ ph = "sign" /\ k <= Len(txs) /\ ph' = "refused" /\ UNCHANGED <<n, listed, known, txs, order, k, images, signed, records, set>>
Finish == /\ ph = "sign" /\ k > Len(txs) /\ ph' = "done" /\ set' = TRUE
          /\ UNCHANGED <<n, listed, known, txs, order, k, images, signed, records>>
Next == Plan \/ Begin \/ SignTx \/ Refuse \/ Finish

(* every image in the set is the image of the transfer in whose place it stands, and all spent ones are there *)
ImagesRight == \A t \in DOMAIN images : images[t] \in {None, t}
ImagesKnown == (ph = "done") => \A t \in Used : images[t] = t
Untouched == (ph = "done" /\ listed) => \A t \in T \ Used : images[t] = (IF t \in known THEN t ELSE None)
NoPartSet == (ph = "refused") => ~set
AllOrNothing == set => Len(signed) = Len(txs) /\ records = DOMAIN txs
Emit == (ph \in {"done", "refused"}) => PrintT("@V " \o ToJson([n |-> n, listed |-> listed, known |-> known, txs |-> txs, order |-> order,
           images |-> images, signed |-> signed, set |-> set, refusedAt |-> IF ph = "refused" THEN k ELSE 0]))
=============================================================================
