------------------------------ MODULE RpcProc ------------------------------
(***************************************************************************)
(* The wallet RPC process behind the tool.  It is started by the tool (or  *)
(* already runs), says on its output that it is ready - in pieces of any   *)
(* size, among other lines - and may end at any time.  Commands that need  *)
(* it are passed on only while it runs and is ready.  Leaving ends it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth

VARIABLES mode, proc, part, ready, left, hist
vars == <<mode, proc, part, ready, left, hist>>
Streams == {"out", "err"}
(* what is written: whole lines, or pieces of lines; "half" + "rest" is the announcement in two pieces,   *)
(* "char1" + "char2" a line torn inside a character, "bad" a line that is not text at all, "split" the    *)
(* words of the announcement on two lines                                                                 *)
Pieces == {"noise", "marker", "half", "rest", "char1", "char2", "bad", "split", "upper"}

Init == /\ mode \in {"own", "existing", "missing"} /\ proc = "none" /\ part = [s \in Streams |-> ""] /\ ready = FALSE /\ left = FALSE /\ hist = <<>>
Log(op, arg) == hist' = Append(hist, [op |-> op, arg |-> arg, ready |-> ready', proc |-> proc'])

Launch == /\ proc = "none" /\ hist = <<>> /\ UNCHANGED <<mode, part, left>>
          /\ proc' = (CASE mode = "own" -> "running" [] mode = "existing" -> "other" [] OTHER -> "absent")
          /\ ready' = (mode = "existing") /\ Log("launch", mode)
Write(s, p) ==
    /\ proc = "running" /\ UNCHANGED <<mode, proc, left>>
    /\ p = "half" => part[s] = ""
    /\ p = "rest" => part[s] = "half"
    /\ p = "char1" => part[s] = ""
    /\ p = "char2" => part[s] = "char"
    /\ part' = [part EXCEPT ![s] = CASE p = "half" -> "half" [] p = "char1" -> "char" [] OTHER -> ""]
    /\ ready' = (ready \/ p \in {"marker", "upper"} \/ p = "rest")
    /\ Log("write", <<s, p>>)
Die == proc = "running" /\ proc' = "ended" /\ UNCHANGED <<mode, part, ready, left>> /\ Log("die", "-")
Usable == proc \in {"running", "other"} /\ ready
Command == /\ proc # "none" /\ (hist[Len(hist)].op # "command") /\ UNCHANGED <<mode, proc, part, ready, left>>
           /\ Log("command", IF Usable THEN "passed" ELSE "refused")
(* the process may or may not take the request to stop *)
Leave(w) == /\ proc # "none" /\ ~left /\ left' = TRUE /\ UNCHANGED <<mode, part, ready>>
            /\ (proc # "running" => w = "stops")
            /\ proc' = (IF proc = "running" THEN "ended" ELSE proc)
            /\ Log("leave", w)

Next == ~left /\ (Launch \/ (Len(hist) < Depth /\ ((\E s \in Streams, p \in Pieces : Write(s, p)) \/ Die \/ Command)) \/ \E w \in {"stops", "deaf"} : Leave(w))

PassedOnlyReady == \A i \in 1..Len(hist) : hist[i].op = "command" /\ hist[i].arg = "passed" => hist[i].ready /\ hist[i].proc \in {"running", "other"}
NotOursLives == left => (mode = "existing") = (proc = "other")
Gone == left => proc # "running"
(* nothing but the announcement, whole on one stream, makes it ready *)
ReadySaid == mode = "own" /\ ready => \E i \in 1..Len(hist) : hist[i].op = "write" /\ hist[i].arg[2] \in {"marker", "upper", "rest"}
Emit == left => PrintT("@V " \o ToJson([mode |-> mode, hist |-> hist]))
=============================================================================
