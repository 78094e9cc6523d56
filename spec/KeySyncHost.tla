---------------------------- MODULE KeySyncHost -----------------------------
(* Exchanges recorded between the real host and device for lists of any     *)
(* length: a list announced, then every output exactly once in order, in    *)
(* non-empty steps, then the key.  Steps carry only their size.             *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES t, k, ph, cnt
Traces == JsonDeserialize("traces.json")
Ev(n) == Traces[t].ev[n]

Init == t \in 1..Len(Traces) /\ k = 0 /\ ph = "NONE" /\ cnt = 0
Next == /\ k < Len(Traces[t].ev) /\ k' = k + 1 /\ t' = t
        /\ LET e == Ev(k + 1) IN
           \/ /\ e.m = "init" /\ ph = "NONE" /\ k = 0 /\ e.num = Traces[t].n /\ e.resp = "ack"
              /\ ph' = "RUN" /\ cnt' = 0
           \/ /\ e.m = "step" /\ ph = "RUN" /\ e.size > 0 /\ e.first = cnt + 1 /\ e.inorder /\ e.size + cnt <= Traces[t].n
              /\ e.resp = "ack" /\ e.kis = e.size /\ ph' = ph /\ cnt' = cnt + e.size
           \/ /\ e.m = "final" /\ ph = "RUN" /\ cnt = Traces[t].n /\ e.resp = "key" /\ ph' = "DONE" /\ cnt' = cnt
Report == PrintT("@T " \o ToJson(<<t, k, ph>>))
=============================================================================
