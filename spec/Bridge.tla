------------------------------- MODULE Bridge -------------------------------
(***************************************************************************)
(* What happens to one message between the agent and a connected Trezor.   *)
(*                                                                         *)
(* The agent's messages and those of the client library are two families   *)
(* of the same classes. A request is converted to the library's family,    *)
(* put on the wire, and rebuilt on the device; a reply goes the other way. *)
(* A message is a tree: its class, its family, and its fields, whose       *)
(* values are leaves or again messages. Binary values may be held in a     *)
(* buffer that can still change ("buf") or as fixed bytes ("fix").         *)
(*                                                                         *)
(* The schema (class -> wire type, fields) comes from messages.json, the   *)
(* catalogue that also pins the wire format (Wire.tla).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Deep

Schema == JsonDeserialize("schema.json")     \* class -> [wire, req, rep, fields: <<[name, kind, sub, rep]>>]
Classes == DOMAIN Schema

Leaf(k, v, h) == [k |-> k, v |-> v, h |-> IF k = "by" THEN h ELSE "fix", m |-> <<>>]
Node(t) == [k |-> "msg", v |-> 0, h |-> "fix", m |-> <<t>>]

\* which fields are set
Wanted(mode, i) == CASE mode[1] = "none" -> FALSE [] mode[1] = "all" -> TRUE [] mode[1] = "one" -> i = mode[2] [] OTHER -> i # mode[2]

RECURSIVE Build(_, _, _, _, _, _, _)
\* class, mode, leaf value 0..2, length of repeated fields, how binary values are held, family, depth
Build(c, mode, v, n, h, p, d) ==
    LET fs == Schema[c].fields
        idx == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : Wanted(mode, i) /\ (fs[i].kind # "msg" \/ d < 3))
        val(i) == IF fs[i].kind = "msg" THEN Node(Build(fs[i].sub, <<"all", 0>>, v, n, h, p, d + 1)) ELSE Leaf(fs[i].kind, v, h)
    IN [c |-> c, p |-> p,
        f |-> [j \in 1..Len(idx) |-> [name |-> fs[idx[j]].name, rep |-> fs[idx[j]].rep,
                                      vals |-> [q \in 1..(IF fs[idx[j]].rep THEN n ELSE 1) |-> val(idx[j])]]]]

RECURSIVE Conv(_, _), Pure(_, _), Text(_)
\* the same message in another family
Conv(t, p) == [c |-> t.c, p |-> p,
    f |-> [i \in 1..Len(t.f) |-> [t.f[i] EXCEPT !.vals = [j \in 1..Len(t.f[i].vals) |->
             LET x == t.f[i].vals[j] IN IF x.m # <<>> THEN [x EXCEPT !.m = <<Conv(x.m[1], p)>>] ELSE [x EXCEPT !.h = "fix"]]]]]
Pure(t, p) == t.p = p /\ \A i \in 1..Len(t.f) : \A j \in 1..Len(t.f[i].vals) :
    LET x == t.f[i].vals[j] IN IF x.m # <<>> THEN Pure(x.m[1], p) ELSE x.h = "fix"
\* the content alone: a repeated field without items is the same as an absent one
Text(t) == [c |-> t.c, f |-> [i \in 1..Len(SelectSeq(t.f, LAMBDA g : g.vals # <<>>)) |->
    LET g == SelectSeq(t.f, LAMBDA g : g.vals # <<>>)[i] IN
    <<g.name, [j \in 1..Len(g.vals) |-> IF g.vals[j].m # <<>> THEN <<Text(g.vals[j].m[1])>> ELSE <<g.vals[j].k, g.vals[j].v>>]>>]]

-----------------------------------------------------------------------------
Modes(c) == {<<"none", 0>>, <<"all", 0>>} \cup {<<k, i>> : k \in {"one"} \cup (IF Deep THEN {"but"} ELSE {}), i \in 1..Len(Schema[c].fields)}
HasBy(c) == \E i \in 1..Len(Schema[c].fields) : Schema[c].fields[i].kind \in {"by", "msg"}

VARIABLES orig, msg, at, dir
vars == <<orig, msg, at, dir>>
Init == \E c \in Classes : \E mode \in Modes(c), v \in 0..2, n \in {1, 2} \cup (IF Deep THEN {0, 3} ELSE {0}) :
        \E h \in IF HasBy(c) THEN {"fix", "buf"} ELSE {"fix"} :
          \/ /\ Schema[c].req /\ dir = "req" /\ at = "agent" /\ orig = Build(c, mode, v, n, h, "agent", 0) /\ msg = orig
          \/ /\ Schema[c].rep /\ h = "fix" /\ dir = "rep" /\ at = "device" /\ orig = Build(c, mode, v, n, h, "device", 0) /\ msg = orig
Step(from, to, p) == at = from /\ at' = to /\ msg' = Conv(msg, p) /\ UNCHANGED <<orig, dir>>
Next == \/ dir = "req" /\ (Step("agent", "client", "lib") \/ Step("client", "device", "device"))
        \/ dir = "rep" /\ (Step("device", "client", "lib") \/ Step("client", "agent", "agent"))

\* wherever the message is, it says the same, and it is wholly of the family of that place
Unchanged == Text(msg) = Text(orig)
Whole == LET p == CASE at = "agent" -> "agent" [] at = "client" -> "lib" [] OTHER -> "device" IN
         msg = orig \/ Pure(msg, p)
Emit == msg = orig => PrintT("@V " \o ToJson([d |-> dir, m |-> orig]))
=============================================================================
