----------------------------- MODULE DeviceOpen -----------------------------
(***************************************************************************)
(* Starting the tool on an address and its private view key: of a connected *)
(* device, given on the command line, or from an account file.             *)
(*                                                                         *)
(* They count only if the key is that of the address; otherwise no         *)
(* wallet is opened, and no wallet file and no account file is written.    *)
(* With both in order the watch-only wallet and, if named, the account     *)
(* file are made, and hold exactly these keys; started again with the      *)
(* account file the tool opens the same wallet, without the device.        *)
(* The network is the one chosen (tn: the test network), and stays so when *)
(* the tool connects to the device again.                                  *)
(* Second part: random bytes from the device are stored as they came.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxChunks
Gives == {"own", "refused", "other view", "other address", "bad address", "short key", "wrong reply", "gone"}
Good(g) == g = "own"
VARIABLES job, ph, keys, wfile, afile, res, got
vars == <<job, ph, keys, wfile, afile, res, got>>
\* afile: "none", "old" is never overwritten
Paper == {"own", "sub", "other view", "other address", "bad address", "short key"}
Opens == [t : {"open"}, src : {"device"}, g : Gives, noInit : BOOLEAN, acc : BOOLEAN, wal : BOOLEAN, tn : BOOLEAN, size : {0}, chunks : {<<>>}]
         \cup [t : {"open"}, src : {"passed", "file"}, g : Paper, noInit : BOOLEAN, acc : BOOLEAN, wal : BOOLEAN, tn : BOOLEAN, size : {0}, chunks : {<<>>}]
Sizes == {1, 5, 64, 300}
Takes == [t : {"take"}, src : {"device"}, g : {"own"}, noInit : {FALSE}, acc : {FALSE}, wal : {FALSE}, tn : {TRUE}, size : Sizes,
          chunks : UNION {[1..n -> {1, 5, 64, 255}] : n \in 1..MaxChunks}]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Init == /\ job \in Opens \cup {x \in Takes : Sum(x.chunks) >= x.size /\ (Sum(SubSeq(x.chunks, 1, Len(x.chunks) - 1)) < x.size)}
        /\ ph = "start" /\ keys = "none" /\ wfile = "none" /\ afile = "none" /\ res = "none" /\ got = <<>>
End(r) == ph' = "end" /\ res' = r
Ask == /\ ph = "start" /\ job.t = "open"
       /\ IF ~job.wal /\ job.src = "device" THEN End("exit") /\ UNCHANGED <<keys, got>>            \* nowhere to keep the wallet: nothing is asked of the device
          ELSE IF Good(job.g) THEN ph' = "keys" /\ keys' = "own" /\ got' = <<1>> /\ UNCHANGED res
          ELSE End(IF job.noInit /\ job.src = "device" THEN "none or error" ELSE "error") /\ UNCHANGED <<keys, got>>
       /\ UNCHANGED <<job, wfile, afile>>
\* an account file is made when named, new, and the wallet has a place; one that was opened stays as it is
NewAcc == job.acc /\ job.src # "file"
Make == /\ ph = "keys" /\ UNCHANGED <<job, keys, got>>
        /\ IF NewAcc /\ ~job.wal THEN End("exit") /\ UNCHANGED <<wfile, afile>>
           ELSE wfile' = (IF job.noInit \/ ~job.wal THEN "none" ELSE keys) /\ afile' = (IF NewAcc THEN keys ELSE "none") /\ End("opened")
Take == /\ ph = "start" /\ job.t = "take" /\ Sum(got) < job.size
        /\ got' = Append(got, job.chunks[Len(got) + 1]) /\ UNCHANGED <<job, ph, keys, wfile, afile, res>>
Enough == ph = "start" /\ job.t = "take" /\ Sum(got) >= job.size /\ End("stored") /\ UNCHANGED <<job, keys, wfile, afile, got>>
Next == Ask \/ Make \/ Take \/ Enough

OnlyOwn == wfile \in {"none", "own"} /\ afile \in {"none", "own"} /\ (keys = "none" => wfile = "none" /\ afile = "none")
OnlyGood == keys # "none" => Good(job.g)
AsCame == res = "stored" => Sum(got) >= job.size /\ \A i \in 1..Len(got) : got[i] = job.chunks[i]
Emit == ph = "end" => PrintT("@V " \o ToJson([j |-> job, res |-> res, keys |-> keys, wfile |-> wfile, afile |-> afile, n |-> Len(got)]))
=============================================================================
