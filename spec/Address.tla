------------------------------ MODULE Address -------------------------------
(***************************************************************************)
(* Address texts: base58 of  version || spend || view || pid? || checksum. *)
(* A text is an address iff it is the encoding of one: the text is         *)
(* canonical, its checksum is right, the version is known and the length   *)
(* is the one of that version's kind.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Deep

Nets == {"main", "test", "stage"}
Kinds == {"std", "int", "sub"}
Version(n, k) == CASE n = "main" -> (CASE k = "std" -> 18 [] k = "int" -> 19 [] k = "sub" -> 42)
                   [] n = "test" -> (CASE k = "std" -> 53 [] k = "int" -> 54 [] k = "sub" -> 63)
                   [] n = "stage" -> (CASE k = "std" -> 24 [] k = "int" -> 25 [] k = "sub" -> 36)
Versions == {Version(n, k) : n \in Nets, k \in Kinds}
Owner(v) == CHOOSE x \in Nets \X Kinds : Version(x[1], x[2]) = v
PayLen(k) == IF k = "int" THEN 72 ELSE 64
\* characters of the text for a payload of n bytes (version and checksum added)
TextLen(n) == LET t == n + 5 IN (t \div 8) * 11 + <<0, 2, 3, 5, 6, 7, 9, 10>>[(t % 8) + 1]

\* content of keys: random, zero blocks (digits all "1"), saturated blocks
Fills == {"rand", "zero", "ff", "mix"}

VARIABLES ver, len, fill, edit, good
vars == <<ver, len, fill, edit, good>>

\* payload as written, with its own (right) checksum; then edits of the text
Edits(L) == {<<"none">>, <<"chk">>, <<"chkswap">>, <<"empty">>, <<"upper">>, <<"space">>, <<"nl">>, <<"double">>, <<"nochk">>}
            \cup {<<"sub", p>> : p \in 1..L} \cup {<<"bad", p>> : p \in 1..L} \cup {<<"del", p>> : p \in 1..L}
            \cup {<<"ins", p>> : p \in 1..(L + 1)} \cup {<<"swap", p>> : p \in 1..(L - 1)}
            \cup {<<"cut", p>> : p \in 0..(L - 1)}
            \cup {<<"over", b>> : b \in 1..(L \div 11)}          \* block value + 2^64 (where it fits)
            \cup {<<"over0", b>> : b \in 1..(L \div 11)}         \* exactly 2^64 in place of a zero block

Init == /\ ver \in Versions \cup {0, 1, 17, 20, 43, 127} /\ len \in {0, 1, 32, 63, 64, 65, 71, 72, 73, 96}
        /\ fill \in Fills /\ edit \in Edits(TextLen(len))
        /\ good = FALSE
        \* lengths are varied on plain texts; texts are edited for proper payloads
        /\ edit[1] # "none" => ver \in Versions /\ len = PayLen(Owner(ver)[2])
        /\ (~Deep /\ edit[1] \in {"sub", "bad", "del", "ins", "swap", "cut"}) => ver \in {18, 54, 36} /\ fill = "rand"
        /\ (~Deep /\ edit[1] = "none") => fill \in {"rand", "zero"}

Proper == /\ ver \in Versions /\ len = PayLen(Owner(ver)[2])
\* an edit that happens to give the same text is none; the replay decides that by comparing texts
Check == /\ ~good /\ good' = (Proper /\ edit = <<"none">>)
         /\ UNCHANGED <<ver, len, fill, edit>>
Next == Check
OnlyAddresses == good => /\ ver \in Versions /\ len = PayLen(Owner(ver)[2])
Emit == PrintT("@V " \o ToJson([ver |-> ver, len |-> len, fill |-> fill, edit |-> edit, ok |-> (Proper /\ edit = <<"none">>),
                                net |-> IF ver \in Versions THEN Owner(ver)[1] ELSE "-",
                                kind |-> IF ver \in Versions THEN Owner(ver)[2] ELSE "-"]))
Once == ~good /\ Emit   \* printed for initial states only
=============================================================================
