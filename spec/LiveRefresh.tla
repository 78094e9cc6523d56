---------------------------- MODULE LiveRefresh -----------------------------
(***************************************************************************)
(* Live refresh: the host asks the device for the key image of an output   *)
(* it has just scanned.  The answer is Seal(HostKey(view, output, salt),   *)
(* image || proof); the host keeps the image only if the box opens for     *)
(* that output and the proof shows it is the image of that output key.     *)
(*                                                                         *)
(* Answers are forged in two strengths: by somebody on the line (no view   *)
(* key), and by a faulty device that seals whatever it likes.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Fam, MaxQ

\* outputs: received at the main address, at a subaddress, at a subaddress with a large index, main again
O == IF Fam = "seq" THEN 1..2 ELSE 1..4
Line == {"none", "error", "salt", "nonce", "body", "tag", "short", "empty", "swap", "replay", "wallet"}
Faulty == {"otherimage", "randimage", "zeroimage", "torsion2", "torsion8", "negimage", "nosig", "c", "r", "swapcr", "sigother",
           "trunc", "trunc64", "ragged"}

VARIABLES ph, hist, act, res
vars == <<ph, hist, act, res>>
Init == ph = "IDLE" /\ hist = <<>> /\ act = [m |-> "-"] /\ res = <<"-">>

Image(o) == <<"ki", o>>

\* "swap": the answer to a query of another output; "replay": the earlier answer for this output (still right)
Earlier(o) == \E i \in 1..Len(hist) : hist[i] = o
Accept(o, f) == CASE f = "none" -> TRUE
                  [] f = "replay" -> TRUE
                  [] OTHER -> FALSE

Start(f) == /\ ph = "IDLE" /\ act' = [m |-> "start", f |-> f]
            /\ IF f = "none" THEN ph' = "RUN" /\ res' = <<"ok">> ELSE ph' = ph /\ res' = <<"error">>
            /\ UNCHANGED hist
Query(o, f) == /\ ph = "RUN" /\ Len(hist) < MaxQ /\ (f = "replay" => Earlier(o))
               /\ act' = [m |-> "query", o |-> o, f |-> f] /\ hist' = Append(hist, o) /\ ph' = ph
               /\ res' = IF Accept(o, f) THEN Image(o) ELSE <<"error">>
Final(f) == /\ ph = "RUN" /\ act' = [m |-> "final", f |-> f] /\ UNCHANGED hist
            /\ IF f = "none" THEN ph' = "END" /\ res' = <<"ok">> ELSE ph' = ph /\ res' = <<"error">>
Fs == IF Fam = "seq" THEN {"none", "replay", "swap", "error", "otherimage"} ELSE Line \cup Faulty
Next == (\E f \in {"none", "error"} : Start(f) \/ Final(f)) \/ (\E o \in O, f \in Fs : Query(o, f))

\* K03
OnlyRight == [][act'.m = "query" /\ res' # <<"error">> => res' = Image(act'.o)]_vars
Honest == [][act'.m = "query" /\ act'.f = "none" => res' = Image(act'.o)]_vars

View == <<ph, hist>>
Emit == PrintT("@E " \o ToJson(<<<<ph, hist>>, act', res', <<ph', hist'>> >>))
=============================================================================
