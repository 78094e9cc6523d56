------------------------------ MODULE HostTrace -----------------------------
(* Sessions recorded between the real host and the real device must be      *)
(* behaviours of the honest composition, and complete ones.                 *)
EXTENDS HostSign, IOUtils
VARIABLES t, k
Traces == JsonDeserialize("traces.json")

TInit == /\ t \in 1..Len(Traces) /\ k = 0
         /\ scn = Traces[t].scn
         /\ ph = "NONE" /\ sess = 0
         /\ regs = <<>> /\ perm = <<>> /\ vins = <<>> /\ outs = <<>>
         /\ cov = 0 /\ sg = <<>> /\ old = NoOld
         /\ act = [m |-> "-"] /\ resp = "-"
TNext == /\ k < Len(Traces[t].ev)
         /\ k' = k + 1 /\ t' = t
         /\ HNextT(Traces[t].ev[k + 1].act)
         /\ act' = Traces[t].ev[k + 1].act
         /\ resp' = Traces[t].ev[k + 1].resp
TView == <<t, k, dev>>
\* progress of each trace; a trace is a complete behaviour when it ends in FINAL
Report == PrintT("@T " \o ToJson(<<t, k, ph>>))
TInv == Report
=============================================================================
