------------------------------- MODULE WatchOnly -------------------------------
(* Starting the tool with a wallet file name: make the watch-only keys file   *)
(* unless one is there, and refuse to work beside a file that is not ours.    *)
(* The restore height is asked for; dates are resolved by the daemon.         *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxAsk
VARIABLES name, file, noInit, pub, said, ph, stage, h, res
vars == <<name, file, noInit, pub, said, ph, stage, h, res>>

Files == {"none", "own", "other", "other view", "broken", "other password"}
Init == /\ name \in BOOLEAN /\ file \in Files /\ noInit \in BOOLEAN /\ pub \in BOOLEAN /\ (pub \/ noInit \/ file \in {"none", "own"})
        /\ said = <<>> /\ ph = "start" /\ stage = "ask" /\ h = "?" /\ res = "none"

Start == /\ ph = "start"
         /\ IF ~name THEN ph' = "end" /\ res' = "nothing"
            ELSE IF pub /\ file # "none" THEN ph' = "end" /\ res' = (IF file = "own" \/ noInit THEN "nothing" ELSE "exit")
            ELSE IF noInit THEN ph' = "end" /\ res' = "nothing"
            ELSE IF ~pub THEN ph' = "end" /\ res' = "error"
            ELSE ph' = "height" /\ res' = res
         /\ UNCHANGED <<name, file, noInit, pub, said, stage, h>>

Answers == {"-", "empty", "number", "date", "bad date", "junk"}
Say(x) == said' = Append(said, x)
Ask == /\ ph = "height" /\ Len(said) < MaxAsk
       /\ CASE stage = "ask" -> \E a \in Answers : Say(a) /\
                 (CASE a \in {"-", "empty", "number", "date"} -> stage' = "sure" /\ h' = a
                    [] a = "bad date" -> stage' = "again" /\ h' = h
                    [] OTHER -> stage' = "ask" /\ h' = h) /\ UNCHANGED <<ph, res>>
            [] stage = "sure" -> \E a \in {"y", "n"} : Say(a) /\
                 (IF a = "y" THEN ph' = "end" /\ res' = "made" /\ UNCHANGED <<stage, h>>
                  ELSE stage' = "ask" /\ UNCHANGED <<h, ph, res>>)
            [] OTHER -> \E a \in {"y", "n"} : Say(a) /\
                 (IF a = "y" THEN stage' = "ask" /\ UNCHANGED <<h, ph, res>>
                  ELSE h' = "empty" /\ ph' = "end" /\ res' = "made" /\ UNCHANGED stage)
       /\ UNCHANGED <<name, file, noInit, pub>>
Next == Start \/ Ask

KeepsFiles == (res = "made") => file = "none" /\ pub
Asked == (ph = "height") => name /\ file = "none" /\ pub
OwnOnly == (res = "nothing" /\ name /\ pub /\ ~noInit) => file = "own"
Emit == (ph = "end") => PrintT("@V " \o ToJson([name |-> name, file |-> file, noInit |-> noInit, pub |-> pub, said |-> said, h |-> h, res |-> res]))
=============================================================================
