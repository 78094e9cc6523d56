----------------------------- MODULE TrezorLink -----------------------------
(***************************************************************************)
(* The exchanges of the agent with a connected Trezor: connecting, one     *)
(* request after another, the device asking for a button press, refusing,  *)
(* or answering something unknown, and connecting again.                   *)
(*                                                                         *)
(* A script is a sequence of requests, each with the way the device will   *)
(* behave. The specification says what the device sees (its log) and how   *)
(* each request ends for the agent.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Kinds

\* ways to send a request
Typed == {"call", "view", "sign", "ki", "txkey", "live", "insession", "raw"}
Behave == {"ok", "button", "button2", "fail", "cancel", "odd"}
Reqs == [k : Kinds \cap Typed, b : Behave] \cup [k : Kinds \cap {"ping"}, b : {"ok", "button", "fail"}] \cup [k : Kinds \cap {"reconnect"}, b : {"ok"}]

VARIABLES script, pos, up, out, log, asked, res
\* up: number of openings of the wire; out: messages sent and not answered; asked: button requests left for this request
vars == <<script, pos, up, out, log, asked, res>>

Scripts == UNION {[1..n -> Reqs] : n \in 1..MaxLen}
\* the connection itself introduces the agent
Init == script \in Scripts /\ pos = 1 /\ up = 0 /\ out = <<>> /\ log = <<"Initialize">> /\ asked = -1 /\ res = <<>>
Cur == script[pos]
Left == pos <= Len(script)
Name(k) == IF k = "reconnect" THEN "Initialize" ELSE k

Open == Left /\ up = 0 /\ asked = -1 /\ up' = 1 /\ UNCHANGED <<script, pos, out, log, asked, res>>
Send == /\ Left /\ up = 1 /\ out = <<>> /\ asked = -1
        /\ out' = <<Name(Cur.k)>> /\ log' = Append(log, Name(Cur.k))
        /\ asked' = CASE Cur.b = "button" -> 1 [] Cur.b = "button2" -> 2 [] OTHER -> 0
        /\ UNCHANGED <<script, pos, up, res>>
\* the device wants a button pressed: the client acknowledges, and the request stays open
Button == out # <<>> /\ asked > 0 /\ asked' = asked - 1 /\ out' = <<"ButtonAck">> /\ log' = Append(log, "ButtonAck") /\ UNCHANGED <<script, pos, up, res>>
Answer == /\ out # <<>> /\ asked = 0 /\ out' = <<>> /\ asked' = -2
          /\ res' = Append(res, IF Cur.b \in {"fail", "cancel", "odd"} THEN "error" ELSE "answer")
          /\ UNCHANGED <<script, pos, up, log>>
Close == asked = -2 /\ up = 1 /\ up' = 0 /\ asked' = -1 /\ pos' = pos + 1 /\ UNCHANGED <<script, out, log, res>>
Next == Open \/ Send \/ Button \/ Answer \/ Close

\* a request is on the wire only while it is open, one at a time; every request ended before the next began
OneAtATime == Len(out) <= 1 /\ (out # <<>> => up = 1) /\ up \in 0..1
Ended == asked = -1 /\ up = 0 => Len(res) = pos - 1
\* each request reaches the device exactly once, in order
Once == SelectSeq(log, LAMBDA x : x # "ButtonAck") =
        <<"Initialize">> \o [i \in 1..(IF asked = -1 THEN pos - 1 ELSE pos) |-> Name(script[i].k)]
\* an error of one request does not reach the next
Own == \A i \in 1..Len(res) : res[i] = "error" <=> script[i].b \in {"fail", "cancel", "odd"}
Emit == ~Left => PrintT("@V " \o ToJson([s |-> script, log |-> log, res |-> res]))
=============================================================================
