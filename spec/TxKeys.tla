------------------------------- MODULE TxKeys -------------------------------
(***************************************************************************)
(* Recovery of transaction keys.                                           *)
(*                                                                         *)
(* At the end of signing, transaction t of wallet w leaves a record on the *)
(* host: salt, multiplier and the blob Seal(DevKey(w, mult, prefix, salt), *)
(* keys of t).  Later a host with wallet w's view key asks w's device to   *)
(* open a blob.  The device answers with keys (or derivations) sealed for  *)
(* the host under HostKey(view of w, prefix, fresh salt).  The records can *)
(* be mixed up or altered before they reach the device, and the answer can *)
(* be altered, replaced by an error or by an answer to another request     *)
(* before it reaches the host.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Fam, Kind       \* Kind: "keys" or "derivs"

\* transactions: their wallet and the number of keys (one, or one per output in addition)
Tx == <<[w |-> 1, n |-> 1], [w |-> 1, n |-> 4], [w |-> 2, n |-> 1]>>
T == 1..3
W == 1..2

\* symbolic terms; "x" marks an altered component
DevKey(w, mult, pfx, salt) == <<"dev", w, mult, pfx, salt>>
HostKey(w, pfx, salt)      == <<"host", w, pfx, salt>>
Seal(k, p) == [key |-> k, pay |-> p, whole |-> TRUE]
Spoil(b)   == [b EXCEPT !.whole = FALSE]
Opens(k, b) == b.whole /\ b.key = k

Record(t) == [salt |-> <<"s", t>>, mult |-> <<"m", t>>, pfx |-> <<"p", t>>,
              blob |-> Seal(DevKey(Tx[t].w, <<"m", t>>, <<"p", t>>, <<"s", t>>), <<"keys", t>>)]

VARIABLES pc, req, spoil, dev, net, res
vars == <<pc, req, spoil, dev, net, res>>

Spoils == {"none", "salt", "mult", "nonce", "body", "tag", "short", "pfx"}
\* parts of the request: which record each component comes from, and the wallet whose device is asked
Reqs == CASE Fam = "mix"   -> {[w |-> w, salt |-> a, mult |-> b, blob |-> c, pfx |-> d] : w \in W, a \in T, b \in T, c \in T, d \in T}
          [] Fam = "own"   -> {[w |-> Tx[t].w, salt |-> t, mult |-> t, blob |-> t, pfx |-> t] : t \in T}
\* what happens to the answer
Nets == IF Fam = "mix" THEN {"none"}
        ELSE {"none", "error", "salt", "nonce", "body", "tag", "short", "empty", "othertx", "otherwallet",
              "ragged", "otherpayload", "again"}

Init == pc = "ask" /\ req \in Reqs /\ spoil \in Spoils /\ dev = <<>> /\ net \in Nets /\ res = <<"-">>

ASalt(r, s) == IF s = "salt" THEN <<"sx", r.salt>> ELSE <<"s", r.salt>>
AMult(r, s) == IF s = "mult" THEN <<"mx", r.mult>> ELSE <<"m", r.mult>>
APfx(r, s)  == IF s = "pfx" THEN <<"px", r.pfx>> ELSE <<"p", r.pfx>>
ABlob(r, s) == IF s \in {"nonce", "body", "tag", "short"} THEN Spoil(Record(r.blob).blob) ELSE Record(r.blob).blob

\* the device of wallet req.w
Answer == /\ pc = "ask"
          /\ LET k == DevKey(req.w, AMult(req, spoil), APfx(req, spoil), ASalt(req, spoil))
                 b == ABlob(req, spoil)
             IN dev' = IF Opens(k, b)
                       THEN [ok |-> TRUE, salt |-> "d1", box |-> Seal(HostKey(req.w, APfx(req, spoil), "d1"), b.pay)]
                       ELSE [ok |-> FALSE]
          /\ pc' = "deliver" /\ UNCHANGED <<req, spoil, net, res>>

\* delivered answer
Deliver(a) ==
    CASE net = "error" -> [ok |-> FALSE]
      [] ~a.ok -> a
      [] net = "salt" -> [a EXCEPT !.salt = "x"]
      [] net \in {"nonce", "body", "tag", "short", "empty"} -> [a EXCEPT !.box = Spoil(@)]
      [] net = "othertx" -> [a EXCEPT !.box = Seal(HostKey(req.w, <<"p", 9>>, "d1"), <<"keys", 9>>)]
      [] net = "otherwallet" -> [a EXCEPT !.box = Seal(HostKey(3 - req.w, APfx(req, spoil), "d1"), @.pay)]
      [] net = "ragged" -> [a EXCEPT !.box.pay = <<"ragged", 0>>]              \* not a whole number of keys
      [] net = "otherpayload" -> [a EXCEPT !.box.pay = <<"keys", 9>>] \* what the device chose to send
      [] net = "again" -> [ok |-> TRUE, salt |-> "d2", box |-> Seal(HostKey(req.w, APfx(req, spoil), "d2"), a.box.pay)]
      [] OTHER -> a

Host == /\ pc = "deliver"
        /\ LET a == Deliver(dev)
           IN res' = IF a.ok /\ Opens(HostKey(req.w, APfx(req, spoil), a.salt), a.box) /\ a.box.pay # <<"ragged", 0>>
                     THEN a.box.pay ELSE <<"error">>
        /\ pc' = "done" /\ UNCHANGED <<req, spoil, dev, net>>

Next == Answer \/ Host

\* H04
Matched == /\ spoil = "none" /\ req.w = Tx[req.blob].w
           /\ req.salt = req.blob /\ req.mult = req.blob /\ req.pfx = req.blob
OnlyOwn == pc = "done" /\ res # <<"error">> => /\ Matched
                                           /\ res = (IF net = "otherpayload" THEN <<"keys", 9>> ELSE <<"keys", req.blob>>)
Recovers == pc = "done" /\ Matched /\ net \in {"none", "again"} => res = <<"keys", req.blob>>
DevOnly == dev # <<>> /\ dev.ok => Matched

Emit == pc = "done" => PrintT("@R " \o ToJson([req |-> req, spoil |-> spoil, net |-> net, dev |-> dev.ok, res |-> res]))
=============================================================================
