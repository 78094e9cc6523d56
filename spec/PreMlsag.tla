----------------------------- MODULE PreMlsag ------------------------------
(***************************************************************************)
(* The hash that is signed: message, signature base (type and fee, pseudo  *)
(* outputs, ecdh information, output commitments) and range proofs, taken  *)
(* in piece by piece.  Between two pieces the hasher may be suspended and  *)
(* another one restored from what was saved.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Max,        \* pieces of one kind
          Window      \* operations that distinguish two histories

VARIABLES st, msg, nps, necdh, npk, nrs, hist, end, fed
vars == <<st, msg, nps, necdh, npk, nrs, hist, end, fed>>

Last(n) == SubSeq(hist, IF Len(hist) > n THEN Len(hist) - n + 1 ELSE 1, Len(hist))
View == <<st, msg, nps, necdh, npk, nrs, end, Last(Window)>>

Init == /\ st = "new" /\ msg = FALSE /\ nps = 0 /\ necdh = 0 /\ npk = 0 /\ nrs = 0
        /\ hist = <<>> /\ end = "no"
        /\ fed = [master |-> <<>>, base |-> <<>>, rsig |-> <<>>]

Legal(op) ==
    CASE op = "init"   -> st = "new"
      [] op = "fee"    -> st = "init"
      [] op = "pseudo" -> st \in {"fee", "pseudo"}
      [] op = "ecdh"   -> st \in {"fee", "pseudo", "ecdh"}
      [] op = "outpk"  -> st \in {"ecdh", "outpk"}
      [] op = "msg"    -> ~msg /\ st \notin {"based", "done"}
      [] op = "base"   -> st = "outpk" /\ msg
      [] op = "rsig"   -> st # "done"
      [] op = "digest" -> st = "based"
Ops == {"init", "fee", "pseudo", "ecdh", "outpk", "msg", "base", "rsig", "digest"}

Bounded(op) == CASE op = "pseudo" -> nps < Max [] op = "ecdh" -> necdh < Max [] op = "outpk" -> npk < Max
                 [] op = "rsig" -> nrs < Max [] OTHER -> TRUE

Do(op) ==
    /\ end = "no" /\ Legal(op) /\ Bounded(op)
    /\ hist' = Append(hist, op)
    /\ st' = CASE op = "msg" -> st [] op = "rsig" -> st [] op = "base" -> "based" [] op = "digest" -> "done" [] OTHER -> op
    /\ msg' = (msg \/ op = "msg")
    /\ nps' = IF op = "pseudo" THEN nps + 1 ELSE nps
    /\ necdh' = IF op = "ecdh" THEN necdh + 1 ELSE necdh
    /\ npk' = IF op = "outpk" THEN npk + 1 ELSE npk
    /\ nrs' = IF op = "rsig" THEN nrs + 1 ELSE nrs
    /\ fed' = CASE op = "msg"    -> [fed EXCEPT !.master = Append(@, "message")]
                [] op = "fee"    -> [fed EXCEPT !.base = Append(@, <<"fee", 0>>)]
                [] op = "pseudo" -> [fed EXCEPT !.base = Append(@, <<"pseudo", nps>>)]
                [] op = "ecdh"   -> [fed EXCEPT !.base = Append(@, <<"ecdh", necdh>>)]
                [] op = "outpk"  -> [fed EXCEPT !.base = Append(@, <<"outpk", npk>>)]
                [] op = "rsig"   -> [fed EXCEPT !.rsig = Append(@, nrs)]
                [] op = "base"   -> [fed EXCEPT !.master = Append(@, "base")]
                [] op = "digest" -> [fed EXCEPT !.master = Append(@, "rsig")]
                [] OTHER -> fed
    /\ end' = IF op = "digest" THEN "digest" ELSE "no"
Refuse(op) == /\ end \in {"no", "digest"} /\ ~Legal(op) /\ Len(hist) > 0 /\ (end = "digest" => op # "digest" \/ TRUE)
              /\ hist' = Append(hist, op) /\ end' = "refused"
              /\ UNCHANGED <<st, msg, nps, necdh, npk, nrs, fed>>
Suspend == /\ end = "no" /\ (Len(hist) = 0 \/ Last(1) # <<"suspend">>)
           /\ hist' = Append(hist, "suspend")
           /\ UNCHANGED <<st, msg, nps, necdh, npk, nrs, end, fed>>
Next == Suspend \/ \E op \in Ops : Do(op) \/ Refuse(op)
Spec == Init /\ [][Next]_vars

\* whatever the order of the pieces, a digest is over the complete transaction in the standard order
Whole == end = "digest" =>
    /\ fed.master = <<"message", "base", "rsig">>
    /\ fed.base = <<<<"fee", 0>>>> \o [i \in 1..nps |-> <<"pseudo", i - 1>>] \o [i \in 1..necdh |-> <<"ecdh", i - 1>>] \o [i \in 1..npk |-> <<"outpk", i - 1>>]
    /\ fed.rsig = [i \in 1..nrs |-> i - 1]
    /\ necdh > 0 /\ npk > 0
Emit == end = "no" \/ PrintT("@V " \o ToJson([h |-> hist, end |-> end, n |-> <<nps, necdh, npk, nrs>>]))
=============================================================================
