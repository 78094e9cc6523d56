------------------------------- MODULE KeysText -------------------------------
(* A keys file is a JSON text whose first member is a string of arbitrary     *)
(* bytes (the serialised keys) and whose other members are the settings of    *)
(* the wallet.  The reader splits the text again.  Bytes are given by class:  *)
(* q quote, b backslash, s slash, c comma, k colon, n newline, z NUL, e 0x1f, *)
(* t tab, N R U the letters n r u, d digit 0, h a byte of 0x80 and above.     *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Bytes, Max
VARIABLES s, done
vars == <<s, done>>

Escape1(x) == CASE x = "q" -> <<"b", "q">> [] x = "b" -> <<"b", "b">> [] x = "n" -> <<"b", "N">> [] x = "t" -> <<"b", "T">>
                [] x = "z" -> <<"b", "U", "d", "d", "d", "d">> [] x = "e" -> <<"b", "U", "d", "d", "d1", "dF">> [] OTHER -> <<x>>
RECURSIVE Escape(_)
Escape(x) == IF x = <<>> THEN <<>> ELSE Escape1(Head(x)) \o Escape(Tail(x))

(* the reader: up to the first quote that no backslash takes away *)
RECURSIVE Read(_, _)
Read(x, acc) ==
  IF x = <<>> THEN [ok |-> FALSE, s |-> <<>>, rest |-> <<>>]
  ELSE IF Head(x) = "q" THEN [ok |-> TRUE, s |-> acc, rest |-> Tail(x)]
  ELSE IF Head(x) # "b" THEN Read(Tail(x), Append(acc, Head(x)))
  ELSE IF Len(x) < 2 THEN [ok |-> FALSE, s |-> <<>>, rest |-> <<>>]
  ELSE IF x[2] = "U" THEN Read(SubSeq(x, 7, Len(x)), Append(acc, IF x[5] = "d" THEN "z" ELSE "e"))
  ELSE Read(SubSeq(x, 3, Len(x)), Append(acc, CASE x[2] = "N" -> "n" [] x[2] = "T" -> "t" [] OTHER -> x[2]))

(* where a reader that looks for a quote and a comma ends *)
RECURSIVE FirstQC(_, _)
FirstQC(x, i) == IF i >= Len(x) THEN 0 ELSE IF x[i] = "q" /\ x[i + 1] = "c" THEN i ELSE FirstQC(x, i + 1)

Rest == <<"c", "q", "N", "q", "k", "d", "c", "q", "U", "q", "k", "q", "q">>
Text(x) == Escape(x) \o <<"q">> \o Rest

Init == s = <<>> /\ done = FALSE
Grow == ~done /\ Len(s) < Max /\ \E x \in Bytes : s' = Append(s, x) /\ UNCHANGED done
Stop == ~done /\ done' = TRUE /\ UNCHANGED s
Next == Grow \/ Stop

RoundTrip == Read(Text(s), <<>>) = [ok |-> TRUE, s |-> s, rest |-> Rest]
Naive == FirstQC(Text(s), 1) # Len(Escape(s)) + 1
Emit == done => PrintT("@V " \o ToJson([s |-> s, naive |-> Naive]))
=============================================================================
