------------------------------- MODULE Confirm --------------------------------
(* The companion server between the host and the user.  Requests of three     *)
(* kinds (sign a Transaction, export Key images, export the Watch-only key)   *)
(* arrive at any time, each on a thread of its own; the user, at one console, *)
(* enters the command of a kind, is shown the request of that kind waiting    *)
(* for an answer, and says yes or no or walks away from the question; the     *)
(* thread of an answered request runs on at any later time.                   *)
(* An answer counts for the request shown and for no other; while a request   *)
(* of a kind waits, others of that kind are refused at once (while one was    *)
(* answered but has not run on yet, both are fine).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mix,          \* which requests arrive
          MaxLen        \* stimuli until everything is drained

Kinds == <<<<"T", "T">>, <<"K", "K">>, <<"W", "W">>, <<"T", "K", "W">>, <<"T", "T", "T">>, <<"K", "K", "K">>, <<"W", "W", "W">>,
           <<"T", "K", "T">>, <<"K", "W", "K">>>>[Mix]
Req == 1..Len(Kinds)
K(r) == Kinds[r]
KindSet == {K(r) : r \in Req}
None == 0

VARIABLES st,           \* request -> "no" (not made), "asked", "yes"/"never" (answered, not run on), "granted", "refused"
          pend,         \* kind -> the request waiting for an answer
          dlg,          \* the question on the console: <<kind, request>> or <<>>
          shown,        \* requests whose data the user saw, and the answers given to them
          sess,         \* kind -> what the steps that follow a granted request may do: "none", "ok", "free" (either), "used"
          spoilt,       \* kind -> a step was refused while a request waited
          hist,         \* <<stimulus, observation>> so far
          draining

vars == <<st, pend, dlg, shown, sess, spoilt, hist, draining>>

Init == /\ st = [r \in Req |-> "no"] /\ pend = [k \in KindSet |-> None] /\ dlg = <<>>
        /\ sess = [k \in KindSet |-> "none"] /\ spoilt = [k \in KindSet |-> FALSE]
        /\ shown = {} /\ hist = <<>> /\ draining = FALSE

Do(s, o) == hist' = Append(hist, [s |-> s, o |-> o])
Room == ~draining /\ Len(hist) < MaxLen
Unrun(k) == \E r \in Req : K(r) = k /\ st[r] \in {"yes", "never"}

(* requests arrive in the order of their numbers *)
Arrive(r) ==
  /\ Room /\ st[r] = "no" /\ \A q \in Req : q < r => st[q] # "no"
  /\ \/ /\ pend[K(r)] = None
        /\ st' = [st EXCEPT ![r] = "asked"] /\ pend' = [pend EXCEPT ![K(r)] = r] /\ Do(<<"arrive", r>>, "waits")
     \/ /\ pend[K(r)] # None \/ Unrun(K(r))
        /\ st' = [st EXCEPT ![r] = "refused"] /\ UNCHANGED pend /\ Do(<<"arrive", r>>, "refused")
  /\ sess' = [sess EXCEPT ![K(r)] = IF @ \in {"ok", "used"} THEN "free" ELSE @]
  /\ spoilt' = [spoilt EXCEPT ![K(r)] = IF pend[K(r)] = None /\ ~Unrun(K(r)) THEN FALSE ELSE @]
  /\ UNCHANGED <<dlg, shown, draining>>

(* whoever is there continues the session of that kind *)
Step(k) ==
  /\ Room /\ k # "W" /\ sess[k] # "used" /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].s # <<"step", k>>)
  /\ \/ sess[k] \in {"none", "free"} /\ Do(<<"step", k>>, "refused")
        /\ sess' = sess /\ spoilt' = [spoilt EXCEPT ![k] = @ \/ pend[k] # None \/ Unrun(k)]
     \/ sess[k] \in {"ok", "free"} /\ Do(<<"step", k>>, "accepted")
        /\ sess' = [sess EXCEPT ![k] = "used"] /\ UNCHANGED spoilt
  /\ UNCHANGED <<st, pend, dlg, shown, draining>>

Enter(k) ==
  /\ dlg = <<>> /\ (Room \/ (draining /\ pend[k] # None))
  /\ IF pend[k] = None
     THEN /\ UNCHANGED <<dlg, shown>> /\ Do(<<"enter", k>>, "nothing")
     ELSE /\ dlg' = <<k, pend[k]>> /\ shown' = shown \cup {[r |-> pend[k], a |-> "shown"]}
          /\ Do(<<"enter", k>>, ToString(pend[k]))
  /\ UNCHANGED <<st, pend, sess, spoilt, draining>>

Answer(a) ==
  /\ dlg # <<>> /\ (draining => a = "no")
  /\ LET k == dlg[1] r == dlg[2] IN
     /\ st' = [st EXCEPT ![r] = IF a = "yes" THEN "yes" ELSE "never"]
     /\ pend' = [pend EXCEPT ![k] = None]
     /\ shown' = shown \cup {[r |-> r, a |-> a]}
     /\ Do(<<a, 0>>, "")
  /\ dlg' = <<>> /\ UNCHANGED <<sess, spoilt, draining>>

(* the user leaves the question (interrupt): no answer was given *)
Leave ==
  /\ dlg # <<>> /\ ~draining /\ dlg' = <<>> /\ Do(<<"leave", 0>>, "")
  /\ UNCHANGED <<st, pend, shown, sess, spoilt, draining>>

Run(r) ==
  /\ st[r] \in {"yes", "never"} /\ (dlg = <<>> \/ ~draining)
  /\ st' = [st EXCEPT ![r] = IF st[r] = "yes" THEN "granted" ELSE "refused"]
  /\ Do(<<"run", r>>, IF st[r] = "yes" THEN "granted" ELSE "refused")
  /\ sess' = [sess EXCEPT ![K(r)] = IF st[r] = "yes" /\ ~spoilt[K(r)] /\ \A q \in Req : K(q) = K(r) /\ q > r => st[q] = "no" THEN "ok"
                                    ELSE IF st[r] = "yes" \/ @ # "none" THEN "free" ELSE @]
  /\ UNCHANGED <<pend, dlg, shown, spoilt, draining>>

(* in the end the user says no to whatever still waits, and every thread runs on *)
Drain == /\ ~draining /\ (IF hist = <<>> THEN FALSE ELSE hist[Len(hist)].s[1] # "leave" \/ MaxLen = Len(hist)) /\ dlg = <<>> /\ draining' = TRUE /\ UNCHANGED <<st, pend, dlg, shown, sess, spoilt, hist>>

Settled == \A r \in Req : st[r] \in {"no", "granted", "refused"}

(* while draining, in a fixed order: run on, then answer *)
Next ==
  IF ~draining
  THEN \/ \E r \in Req : Arrive(r) \/ (Room /\ Run(r))
       \/ \E k \in KindSet : Enter(k) \/ Step(k)
       \/ \E a \in {"yes", "no"} : Room /\ Answer(a)
       \/ (Room /\ Leave)
       \/ Drain
  ELSE IF dlg # <<>> THEN Answer("no")
  ELSE IF \E r \in Req : st[r] \in {"yes", "never"} THEN LET r == CHOOSE r \in Req : st[r] \in {"yes", "never"} /\ \A q \in Req : st[q] \in {"yes", "never"} => r <= q IN Run(r)
  ELSE \E k \in {k \in KindSet : pend[k] # None /\ \A j \in KindSet : pend[j] # None => pend[k] <= pend[j]} : Enter(k)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- the property ---- *)
Confirmed == \A r \in Req : st[r] \in {"yes", "granted"} => [r |-> r, a |-> "yes"] \in shown /\ [r |-> r, a |-> "shown"] \in shown
OneAnswer == \A r \in Req : ~([r |-> r, a |-> "yes"] \in shown /\ [r |-> r, a |-> "no"] \in shown)
Refusal == \A r \in Req : [r |-> r, a |-> "no"] \in shown => st[r] \in {"never", "refused"}
NoneLost == \A r \in Req : st[r] = "asked" <=> pend[K(r)] = r
Continued == \A k \in KindSet : sess[k] # "none" => \E r \in Req : K(r) = k /\ [r |-> r, a |-> "yes"] \in shown
NoneStuck == draining ~> Settled

Emit == (draining /\ dlg = <<>> /\ Settled) =>
  PrintT("@V " \o ToJson([s |-> [i \in 1..Len(hist) |-> hist[i].s], o |-> [i \in 1..Len(hist) |-> hist[i].o]]))
=============================================================================
