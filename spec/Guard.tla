------------------------------- MODULE Guard -------------------------------
(***************************************************************************)
(* One command of the wallet tool: what it does to the wallet RPC and to   *)
(* the device, when the device attached may be another one, refuse, or be  *)
(* gone, may be exchanged while the command runs, the wallet RPC may not   *)
(* be ready, and what the wallet RPC hands out may be of another wallet or *)
(* broken.  The tool keeps nothing from one command to the next, so a      *)
(* session is any sequence of these runs (on one tool).                    *)
(*                                                                         *)
(* Only what the opened wallet's own device has answered reaches the       *)
(* wallet RPC: submit_transfer carries transactions it signed,             *)
(* import_key_images the images it computed for all outputs exported.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Cmds, Devs, Swaps, Hows

\* steps: ready (the RPC is asked for only when it answers), addr (the device's address is that of the wallet),
\* ask (a question), match (the outputs exported are the wallet's), ki / sign (the device), show, watch, r:.. (requests)
Path(c) == CASE c = "check_trezor" -> <<"addr">>
             [] c = "get_address" -> <<"show">>
             [] c = "get_watch_only" -> <<"watch">>
             [] c \in {"address", "state"} -> <<>>
             [] c = "balance" -> <<"ready", "r:balance">>
             [] c = "height" -> <<"ready", "r:height">>
             [] c = "get_transfers" -> <<"ready", "r:get_transfers">>
             [] c = "rescan_bc" -> <<"ready", "r:rescan_bc">>
             [] c = "refresh" -> <<"ready", "r:refresh">>
             [] c = "key_image_sync" -> <<"ready", "addr", "r:export_outputs", "match", "ki", "r:import_key_images">>
             [] c = "transfer" -> <<"ready", "addr", "ask", "r:transfer_split", "ask", "sign", "ask", "r:submit_transfer">>
             [] c \in {"sweep_all", "sweep_below"} -> <<"ready", "addr", "r:sweep_all", "ask", "sign", "ask", "r:submit_transfer">>
             [] c = "sweep_single" -> <<"ready", "addr", "r:sweep_single", "ask", "sign", "ask", "r:submit_transfer">>
             [] c = "sweep_dust" -> <<"ready", "addr", "r:sweep_dust", "sign", "ask", "r:submit_transfer">>
             [] c = "sign" -> <<"ready", "addr", "sign">>
\* a set of two transactions is signed one after the other
Work(c, two) == IF ~two THEN Path(c)
                ELSE LET i == CHOOSE k \in 1..Len(Path(c)) : Path(c)[k] = "sign" IN SubSeq(Path(c), 1, i) \o SubSeq(Path(c), i, Len(Path(c)))
Has(c, s) == \E i \in 1..Len(Path(c)) : Path(c)[i] = s
Rpcs == {"ready", "loading", "down"}
\* what the wallet RPC (for sign: the file) supplies
Supplies(c) == IF Has(c, "match") THEN {"own", "none", "other", "other spend", "other view", "broken", "error"}
               ELSE IF Has(c, "sign") THEN {"own", "two", "other", "broken"} \cup (IF c = "sign" THEN {"nofile"} ELSE {"error"}) ELSE {"own"}

VARIABLES cmd, pc, dev, rpc, sup, answers, swap, log, res, first, hand, how
vars == <<cmd, pc, dev, rpc, sup, answers, swap, log, res, first, hand, how>>

\* how the tool came to the device: it stayed on its connection (also because connecting elsewhere failed: nothing found, or
\* nothing there), connected again, or switched to another one, where the device attached is then another one than before
Ways == {"stay", "nothing found", "fails", "reconnect", "switch", "switch udp", "switch web", "choose", "only one"}
ASSUME Hows \subseteq Ways

Init == /\ cmd \in Cmds /\ pc = 1 /\ dev \in Devs /\ rpc \in Rpcs /\ sup \in Supplies(cmd)
        \* swapped: exchanged at most once; one that is there all the time leaves room for other variations
        /\ (rpc # "ready" => Has(cmd, "ready") /\ sup = "own")
        /\ how \in Hows /\ (how # "stay" => rpc = "ready" /\ sup = "own" /\ (Has(cmd, "addr") \/ Has(cmd, "show") \/ Has(cmd, "watch")))
        /\ answers = <<>> /\ swap = [at |-> 0, to |-> dev] /\ log = <<>> /\ res = "" /\ first = dev /\ hand = "nothing"
Todo == Work(cmd, sup = "two")
Step == Todo[pc]
At(s) == res = "" /\ pc <= Len(Todo) /\ Step = s
On == pc' = pc + 1 /\ UNCHANGED res
Stop(r) == res' = r /\ UNCHANGED pc
Own == dev = "own"
\* the device answers for some wallet
Answers == dev \notin {"refuses", "gone"}

Ready == At("ready") /\ (IF rpc = "ready" THEN On ELSE Stop("not ready")) /\ UNCHANGED <<cmd, dev, rpc, sup, answers, swap, log, first, hand, how>>
Addr == At("addr") /\ (IF Own THEN On ELSE Stop("refused")) /\ UNCHANGED <<cmd, dev, rpc, sup, answers, swap, log, first, hand, how>>
Show == (At("show") \/ At("watch")) /\ (IF Answers THEN On ELSE Stop("refused")) /\ UNCHANGED <<cmd, dev, rpc, sup, answers, swap, log, first, hand, how>>
Ask == \E y \in BOOLEAN : At("ask") /\ answers' = Append(answers, y) /\ (IF y THEN On ELSE Stop("cancelled"))
                          /\ UNCHANGED <<cmd, dev, rpc, sup, swap, log, first, hand, how>>
Match == At("match") /\ (IF sup \in {"own", "none"} THEN On ELSE Stop("refused")) /\ UNCHANGED <<cmd, dev, rpc, sup, answers, swap, log, first, hand, how>>
\* the device signs, or makes images, only for outputs of its own wallet; with no outputs there is nothing to be made
Device == (At("ki") \/ At("sign"))
          /\ (IF Own /\ sup \in {"own", "two", "none"} THEN On /\ hand' = "own"
             ELSE IF sup = "none" /\ Answers THEN On /\ hand' = "none"
             ELSE Stop("refused") /\ UNCHANGED hand)
          /\ UNCHANGED <<cmd, dev, rpc, sup, answers, swap, log, first, how>>
IsReq(s) == s \notin {"ready", "addr", "show", "watch", "ask", "match", "ki", "sign"}
Req == /\ res = "" /\ pc <= Len(Todo) /\ IsReq(Step)
       /\ log' = Append(log, Step)
       /\ (IF sup = "error" THEN Stop("error") ELSE On) /\ UNCHANGED <<cmd, dev, rpc, sup, answers, swap, first, hand, how>>
Done == res = "" /\ pc > Len(Todo) /\ Stop("done") /\ UNCHANGED <<cmd, dev, rpc, sup, answers, swap, log, first, hand, how>>
\* the device is exchanged right before a question, a request or the work on the device (there the tool can be stopped)
Swap == /\ res = "" /\ swap.at = 0 /\ how = "stay" /\ pc <= Len(Todo) /\ Step \notin {"ready", "addr", "match", "show", "watch"}
        /\ sup \in {"own", "two", "none"}
        /\ \E d \in Swaps : d # dev /\ dev' = d /\ swap' = [at |-> pc, to |-> d]
        /\ UNCHANGED <<cmd, pc, rpc, sup, answers, log, res, first, hand, how>>
Next == Ready \/ Addr \/ Show \/ Ask \/ Match \/ Device \/ Req \/ Done \/ Swap

In(s) == \E i \in 1..Len(log) : log[i] = s
\* nothing of another device, of another wallet, or refused reaches the wallet RPC
OnlyOwn == (In("r:submit_transfer") => hand = "own") /\ (In("r:import_key_images") => hand \in {"own", "none"} /\ sup \in {"own", "none"})
OnlyReady == rpc # "ready" => log = <<>>
Checked == Has(cmd, "addr") /\ first # "own" => log = <<>> /\ hand = "nothing"
Asked == In("r:submit_transfer") => \A i \in 1..Len(answers) : answers[i]
Emit == res # "" => PrintT("@V " \o ToJson([cmd |-> cmd, how |-> how, first |-> first, rpc |-> rpc, sup |-> sup, answers |-> answers,
            swap |-> (IF swap.at = 0 THEN "" ELSE Todo[swap.at]), nth |-> (IF swap.at = 0 THEN 0 ELSE Len(SelectSeq(SubSeq(Todo, 1, swap.at), LAMBDA s : s = Todo[swap.at]))),
            to |-> swap.to, log |-> log, res |-> res, hand |-> hand]))
=============================================================================
