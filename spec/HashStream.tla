---------------------------- MODULE HashStream -----------------------------
(***************************************************************************)
(* The writer that hashes what is serialised into it, on top of a sponge   *)
(* of Rate bytes.  Pieces may be given in any chunks; the context may be   *)
(* taken out and put into a new writer; a writer may keep or drop its      *)
(* serialiser; it may be refreshed with its own or with a fresh context.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind,     \* "chunks" or "ops"
          MaxOps
Rate == 136

Chunks == {0, 1, 7, 135, 136, 137, 272, 300}
Write == {"uv0", "uv127", "uv128", "uvbig", "u8", "u32", "u64", "buf", "buf0", "field", "mfield", "size"}
Ctl   == {"keep", "unkeep", "release", "move", "refresh", "fresh"}

VARIABLES hist, out, buf, perms
Init == hist = <<>> /\ out = <<>> /\ buf = 0 /\ perms = 0
Op == /\ Len(hist) < MaxOps
      /\ IF Kind = "chunks"
         THEN \E n \in Chunks :
              /\ hist' = Append(hist, n)
              /\ out' = Append(out, n)
              /\ buf' = (buf + n) % Rate
              /\ perms' = perms + (buf + n) \div Rate
         ELSE \E o \in Write \cup Ctl :
              /\ hist' = Append(hist, o)
              /\ out' = CASE o \in Write -> Append(out, <<Len(hist), o>>)
                          [] o = "fresh" -> <<>>
                          [] OTHER -> out
              /\ UNCHANGED <<buf, perms>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* the sponge has absorbed all bytes, whatever the chunks
Absorbed == Kind = "chunks" => perms * Rate + buf = Sum(out)
Next == Op
Emit == PrintT("@V " \o ToJson([h |-> hist, out |-> out]))
=============================================================================
