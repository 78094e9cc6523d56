----------------------------- MODULE WalletInit -----------------------------
(***************************************************************************)
(* The account file of the companion server: processes are started with    *)
(* or without keys on the command line, the user generates wallets, the    *)
(* process stops and is started again.  A secret is an abstract name;      *)
(* "g1", "g2".. are generated, fresh ones.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth

VARIABLES hasFile,     \* an account file is named on the command line
          file,        \* its content: "none", "bad" or a secret
          mem,         \* the wallet of the running process: "none" or a secret
          up, fresh, hist
vars == <<hasFile, file, mem, up, fresh, hist>>
Given == {"none", "k1", "k2", "spend", "junk"}     \* keys on the command line: both, only the spend key, not hex

Gen(n) == CASE n = 1 -> "g1" [] n = 2 -> "g2" [] n = 3 -> "g3" [] n = 4 -> "g4" [] OTHER -> "g5"
Init == /\ hasFile \in BOOLEAN /\ file \in (IF hasFile THEN {"none", "bad", "old"} ELSE {"none"})
        /\ mem = "none" /\ up = FALSE /\ fresh = 1 /\ hist = <<>>

Log(op, arg, ans) == hist' = Append(hist, [op |-> op, arg |-> arg, ans |-> ans, file |-> file', mem |-> mem'])

(* A start: what is in the file wins over what is typed. *)
Start(k) ==
    /\ ~up /\ hasFile' = hasFile /\ fresh' = fresh
    /\ IF file = "bad" THEN up' = FALSE /\ mem' = "none" /\ file' = file /\ Log("start", k, "refused")
       ELSE IF file # "none" THEN up' = TRUE /\ mem' = file /\ file' = file /\ Log("start", k, "ok")
       ELSE IF k = "none" THEN up' = TRUE /\ mem' = "none" /\ file' = file /\ Log("start", k, "ok")
       ELSE IF k \in {"spend", "junk"} THEN up' = FALSE /\ mem' = "none" /\ file' = file /\ Log("start", k, "refused")
       ELSE IF hasFile THEN up' = TRUE /\ mem' = k /\ file' = k /\ Log("start", k, "ok")
       ELSE \* keys but nowhere to keep them: opened, or refused
            \/ up' = TRUE /\ mem' = k /\ file' = file /\ Log("start", k, "either")
Generate ==
    /\ up /\ hasFile' = hasFile /\ up' = up
    /\ IF file # "none" THEN mem' = mem /\ file' = file /\ fresh' = fresh /\ Log("new", "-", "refused")
       ELSE mem' = Gen(fresh) /\ file' = (IF hasFile THEN Gen(fresh) ELSE "none") /\ fresh' = fresh + 1 /\ Log("new", "-", "ok")
Stop == /\ up /\ up' = FALSE /\ mem' = "none" /\ UNCHANGED <<hasFile, file, fresh>> /\ Log("stop", "-", "ok")

Next == Len(hist) < Depth /\ ((\E k \in Given : Start(k)) \/ Generate \/ Stop)

(* An account file, once there, never changes; a process with a file uses its wallet. *)
Kept == \A i, j \in 1..Len(hist) : i < j /\ hist[i].file # "none" => hist[j].file = hist[i].file
SameWallet == up /\ file # "none" => mem = file
Reopens == \A i \in 1..Len(hist) : hist[i].op = "start" /\ hist[i].ans = "ok" /\ hist[i].file # "none" => hist[i].mem = hist[i].file
Full == Len(hist) = Depth
Emit == Full => PrintT("@V " \o ToJson([hasFile |-> hasFile, hist |-> hist]))
=============================================================================
