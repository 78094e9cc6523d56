------------------------------- MODULE Command -------------------------------
(* The sending commands of the wallet tool: from the words of the line to the *)
(* request the wallet is asked to prepare, and on to the signature.           *)
(*   transfer     [index] [priority] [ring] (address amount)+ [payment id]    *)
(*   sweep_all    [index] [priority] [ring] address [payment id]              *)
(*   sweep_below  amount [index] [priority] [ring] address [payment id]       *)
(*   sweep_single [priority] [ring] key-image address [payment id]            *)
(* A word is named by its kind; the harness has concrete words per kind.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Deep, Edits

Cmds == {"transfer", "sweep_all", "sweep_below", "sweep_single"}
Prio == {"prio0", "prio3"}
Ring == {"int", "n16"}                 \* n16: sixteen digits
Amt == {"int", "dec"}
AmtLike == Amt \cup {"badamt", "n16"}  \* look like amounts, cannot be represented
Addr == {"addr", "sub", "integ"}
Pid == {"hex16", "hex64", "n16"}
PidLike == Pid \cup {"odd16"}          \* of the right length
Rep(x, n) == [i \in 1..n |-> x]
Words == {"idx", "badidx", "prio0", "prio3", "int", "n16", "dec", "badamt", "addr", "sub", "integ", "hex16", "hex64", "odd16", "junk"}

Cat(A, B) == {a \o b : a \in A, b \in B}
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
One(S) == {<<x>> : x \in S}
Tail1 == Opt({"hex16", "hex64", "n16"})
Common == Cat(Opt({"prio3"}), Opt({"int"}))
Sentences(c) ==
  CASE c = "transfer" -> Cat(Opt({"idx"}), Cat(Common, Cat({<<"addr", "dec">>, <<"integ", "int">>, <<"sub", "dec">>, <<"addr", "dec", "sub", "int">>, <<"sub", "int", "addr", "dec", "addr", "dec">>}, Tail1)))
    [] c = "sweep_all" -> Cat(Opt({"idx"}), Cat(Common, Cat(One({"addr", "integ"}), Tail1)))
    [] c = "sweep_below" -> Cat(One({"dec", "int"}), Cat(Opt({"idx"}), Cat(Common, Cat(One({"addr"}), Tail1))))
    [] c = "sweep_single" -> Cat(Common, Cat(One({"hex64"}), Cat(One({"addr"}), Tail1)))

Edited(ts) ==
       {SubSeq(ts, 1, k - 1) \o SubSeq(ts, k + 1, Len(ts)) : k \in 1..Len(ts)}
  \cup {SubSeq(ts, 1, k) \o <<w>> \o SubSeq(ts, k + 1, Len(ts)) : k \in 0..Len(ts), w \in Words}
  \cup {[ts EXCEPT ![k] = w] : k \in 1..Len(ts), w \in Words}
  \cup {[ts EXCEPT ![k] = ts[k + 1], ![k + 1] = ts[k]] : k \in 1..(Len(ts) - 1)}

Short == UNION {[1..n -> Words] : n \in 0..(IF Deep THEN 3 ELSE 2)}

(* ---- reading a line ---- *)
Free == [ok |-> FALSE, lax |-> FALSE, below |-> "", idx |-> "", prio |-> "", ring |-> "", dests |-> <<>>, ki |-> "", pid |-> ""]
Starts(ts, S) == ts # <<>> /\ Head(ts) \in S
Cut(ts, S) == IF Starts(ts, S) THEN Head(ts) ELSE ""
Rest(ts, S) == IF Starts(ts, S) THEN Tail(ts) ELSE ts

RECURSIVE Dests(_)
Dests(ts) == IF Len(ts) >= 2 /\ ts[2] \in AmtLike THEN <<SubSeq(ts, 1, 2)>> \o Dests(SubSeq(ts, 3, Len(ts))) ELSE <<>>

(* last words: nothing, or one payment id *)
PidOk(ts) == ts = <<>> \/ (Len(ts) = 1 /\ ts[1] \in PidLike)

Options(ts0, idx) ==
  LET t1 == IF idx THEN Rest(ts0, {"idx"}) ELSE ts0
      t2 == Rest(t1, Prio)
      t3 == Rest(t2, Ring)
  IN [idx |-> IF idx THEN Cut(ts0, {"idx"}) ELSE "", prio |-> Cut(t1, Prio), ring |-> Cut(t2, Ring), ts |-> t3]

Read(c, ts) ==
  LET below == c = "sweep_below"
      t0 == IF below THEN Rest(ts, Amt) ELSE ts
      o == Options(t0, c # "sweep_single")
      base == [Free EXCEPT !.ok = TRUE, !.below = IF below THEN Cut(ts, Amt) ELSE "", !.idx = o.idx, !.prio = o.prio, !.ring = o.ring]
  IN IF below /\ ~Starts(ts, Amt) THEN Free
     ELSE IF c # "sweep_single" /\ Starts(t0, {"badidx"}) THEN Free
     ELSE IF c = "transfer" THEN
       LET ds == Dests(o.ts)
           rest == SubSeq(o.ts, 2 * Len(ds) + 1, Len(o.ts))
       IN IF /\ ds # <<>>
             /\ \A k \in 1..Len(ds) : ds[k][1] \in Addr /\ ds[k][2] \in Amt
             /\ (rest = <<>> \/ (Len(rest) = 1 /\ rest[1] \in Pid))
             /\ (rest = <<>> \/ \A k \in 1..Len(ds) : ds[k][1] # "integ")
          THEN [base EXCEPT !.dests = ds, !.pid = IF rest = <<>> THEN "" ELSE rest[1]]
          ELSE Free
     ELSE
       LET single == c = "sweep_single"
           t1 == IF single THEN Rest(o.ts, {"hex64"}) ELSE o.ts
       IN IF (single /\ ~Starts(o.ts, {"hex64"})) \/ t1 = <<>> \/ ~PidOk(Tail(t1)) THEN Free
          ELSE [base EXCEPT !.ki = IF single THEN "hex64" ELSE "",
                            !.dests = <<<<t1[1], "all">>>>,
                            !.pid = IF Len(t1) = 1 THEN "" ELSE t1[2],
                            \* the wallet itself refuses these; refusing them at once is as good
                            !.lax = t1[1] \notin Addr \/ (Len(t1) = 2 /\ (t1[2] = "odd16" \/ t1[1] = "integ"))]

(* ---- the command at work ---- *)
(* Everything is asked first: the transfer itself, the prepared transaction,  *)
(* and the submission of the signed one.  Only "yes" goes on.                 *)
VARIABLES cmd, words, ans, fault, at
vars == <<cmd, words, ans, fault, at>>
Asked(c) == IF c = "transfer" THEN 3 ELSE 2

RECURSIVE Alter(_, _)
Alter(S, n) == IF n = 0 THEN S ELSE LET T == Alter(S, n - 1) IN T \cup UNION {Edited(t) : t \in T}

Plain(c) == CHOOSE t \in Sentences(c) : Read(c, t).ok
Init == /\ cmd \in Cmds
        /\ words \in Alter(Sentences(cmd), Edits) \cup Short
        /\ \/ ans = Rep("y", Asked(cmd)) /\ fault = "none"
           \/ words = Plain(cmd) /\ ans \in [1..Asked(cmd) -> {"y", "n", "q"}] /\ fault \in {"none", "wallet", "device"}
        /\ at = "typed"

Yes(k) == ans[k] = "y"
Go(s) == at' = s /\ UNCHANGED <<cmd, words, ans, fault>>
First == IF cmd = "transfer" THEN 1 ELSE 0
Next == \/ at = "typed" /\ Go(IF ~Read(cmd, words).ok THEN "refused" ELSE IF cmd = "transfer" THEN "ask" ELSE "prepare")
        \/ at = "ask" /\ Go(IF Yes(1) THEN "prepare" ELSE "dropped")
        \/ at = "prepare" /\ Go(IF fault = "wallet" THEN "wallet error" ELSE IF Yes(First + 1) THEN "sign" ELSE "prepared")
        \/ at = "sign" /\ Go(IF fault = "device" THEN "device error" ELSE IF Yes(First + 2) THEN "submitted" ELSE "signed")

(* A request never has more or other words than the line, each in one place. *)
Used(r) == {r.below, r.idx, r.prio, r.ring, r.ki, r.pid} \cup UNION {{r.dests[k][1], r.dests[k][2]} : k \in 1..Len(r.dests)}
Count(r) == Cardinality({k \in {"below", "idx", "prio", "ring", "ki", "pid"} : r[k] # ""})
            + Len(r.dests) * (IF cmd = "transfer" THEN 2 ELSE 1)
AllWordsUsed == LET r == Read(cmd, words) IN r.ok => Count(r) = Len(words)
NoInvention == LET r == Read(cmd, words) IN r.ok => Used(r) \subseteq {words[k] : k \in 1..Len(words)} \cup {"", "all"}
SentencesRead == words \in Sentences(cmd) => (Read(cmd, words).ok \/ (cmd = "transfer" /\ "integ" \in {words[k] : k \in 1..Len(words)}))
SignedAfterYes == at \in {"sign", "signed", "submitted", "device error"} => Read(cmd, words).ok /\ \A k \in 1..(First + 1) : Yes(k)
SubmittedAfterYes == at = "submitted" => fault = "none" /\ \A k \in 1..Asked(cmd) : Yes(k)
Final == at \in {"refused", "dropped", "wallet error", "prepared", "device error", "signed", "submitted"}
Emit == Final => PrintT("@V " \o ToJson([c |-> cmd, w |-> words, a |-> ans, f |-> fault, at |-> at, r |-> Read(cmd, words)]))
=============================================================================
