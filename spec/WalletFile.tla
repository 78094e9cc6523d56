------------------------------ MODULE WalletFile ------------------------------
(* The files exchanged with the wallet.  A sealed file is                     *)
(*   kind . version . nonce . body . signature                                *)
(* with body encrypted under the view key and the signature over nonce and    *)
(* body; a keys file is nonce . length . body encrypted under the password,   *)
(* without authentication; an account file holds the view key sealed under    *)
(* password and salt.  The tool writes up to two files, somebody without the  *)
(* keys alters the first (also with parts of the second, or signing with a    *)
(* key of his own), and the tool opens the result as some kind of file with   *)
(* some key.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Two          \* two alterations in a row

Kinds == {"unsigned", "signed", "outputs"}
Keys == {"a", "b"}
Opens == {"unsigned", "outputs"}                 \* the kinds the tool itself reads

VARIABLES ph, files, f, hist, open, res
vars == <<ph, files, f, hist, open, res>>

None == [tag |-> "none"]

(* symbolic contents: who sealed what.  A broken part is a part nobody wrote. *)
Iv(n) == [tag |-> "iv", n |-> n]
Body(k, n, kd, c) == [tag |-> "body", key |-> k, iv |-> Iv(n), kind |-> kd, c |-> c]
Sig(k, iv, b) == [tag |-> "sig", key |-> k, iv |-> iv, body |-> b, form |-> "plain"]
Broken(x, how) == [tag |-> "broken", of |-> x, how |-> how]

Sealed(kd, k, n, c) == LET b == Body(k, n, kd, c) IN
  [t |-> "sealed", kind |-> kd, ver |-> "right", iv |-> Iv(n), body |-> b, sig |-> Sig(k, Iv(n), b), pad |-> FALSE]
KeysFile(k, n, c) == [t |-> "keys", kind |-> "keys", ver |-> "right", iv |-> Iv(n), body |-> Body(k, n, "keys", c), sig |-> None, pad |-> FALSE]
Account(k, n, c) == LET b == Body(k, n, "account", c) IN
  [t |-> "account", kind |-> "account", ver |-> "right", iv |-> Iv(n), body |-> b, sig |-> Sig(k, Iv(n), b), pad |-> FALSE]

Init == ph = "write" /\ files = <<>> /\ f = None /\ hist = <<>> /\ open = None /\ res = "none"

Write == /\ ph = "write" /\ Len(files) < 2
         /\ \/ \E kd \in Kinds, k \in Keys, c \in {"x", "y"} : files' = Append(files, Sealed(kd, k, Len(files) + 1, c))
            \/ \E k \in Keys, c \in {"x", "y"} : files' = Append(files, KeysFile(k, Len(files) + 1, c))
            \/ \E k \in Keys, c \in {"x", "y"} : files' = Append(files, Account(k, Len(files) + 1, c))
         /\ UNCHANGED <<ph, f, hist, open, res>>
Take == /\ ph = "write" /\ Len(files) = 2 /\ files[1].t = files[2].t
        /\ ph' = "alter" /\ f' = files[1] /\ UNCHANGED <<files, hist, open, res>>

al(k, p) == [k |-> k, p |-> p]
Parts(x) == IF x.t = "sealed" THEN {"kind", "ver", "iv", "body", "c", "r"}
            ELSE IF x.t = "keys" THEN {"iv", "len", "body"} ELSE {"iv", "body", "tag", "salt"}
Alts(x) ==
  {al("flip", p) : p \in Parts(x)} \cup {al("cut", p) : p \in Parts(x) \cup {"all"}} \cup {al("drop byte", p) : p \in Parts(x)}
  \cup {al("more", p) : p \in {"end", "body", "start"}}
  \cup {al("from second", p) : p \in Parts(x) \ {"kind", "ver", "len"}}
  \cup (IF x.t = "sealed" THEN {al("relabel", kd) : kd \in Kinds} \cup {al("version", v) : v \in {"3", "4", "0", "255"}}
           \cup {al("sign", "own key"), al("sign", "zero"), al("swap", "c r"), al("over", "c"), al("over", "r"), al("neg", "c"), al("neg", "r"), al("signature of second", "")}
        ELSE {})

(* an alteration as an effect on the parts *)
Hit(x, p, how) ==
  CASE p = "kind" -> [x EXCEPT !.kind = "none"]
    [] p = "ver" -> [x EXCEPT !.ver = "wrong"]
    [] p = "iv" -> [x EXCEPT !.iv = Broken(@, how)]
    [] p \in {"body", "len"} -> [x EXCEPT !.body = Broken(@, how)]
    [] p \in {"c", "r", "tag"} -> [x EXCEPT !.sig = Broken(@, how)]
    [] p = "salt" -> [x EXCEPT !.body = Broken(@, how)]

Alter(x, y, a) ==
  CASE a.k = "flip" -> Hit(x, a.p, "flip")
    [] a.k = "cut" -> IF a.p = "all" THEN Hit(Hit(x, "iv", "cut"), "body", "cut") ELSE IF x.t = "sealed" /\ a.p \in {"kind", "ver"} THEN [x EXCEPT !.kind = "none"] ELSE Hit(x, a.p, "cut")
    [] a.k = "drop byte" -> IF x.t = "sealed" /\ a.p = "ver" THEN [x EXCEPT !.ver = "wrong"] ELSE Hit(x, a.p, "drop")
    [] a.k = "more" -> IF a.p = "end" THEN [x EXCEPT !.pad = TRUE] ELSE IF a.p = "body" THEN Hit(x, "body", "more")
                       ELSE IF x.t = "sealed" THEN [x EXCEPT !.kind = "none"] ELSE Hit(x, "iv", "more")
    [] a.k = "from second" -> CASE a.p = "iv" -> [x EXCEPT !.iv = y.iv] [] a.p = "body" -> [x EXCEPT !.body = y.body]
                                [] OTHER -> Hit(x, a.p, "other")
    [] a.k = "signature of second" -> [x EXCEPT !.sig = y.sig]
    [] a.k = "relabel" -> [x EXCEPT !.kind = a.p]
    [] a.k = "version" -> [x EXCEPT !.ver = IF @ = "right" /\ a.p = (IF x.kind = "outputs" THEN "3" ELSE "4") THEN "right" ELSE "wrong"]
    [] a.k = "sign" -> [x EXCEPT !.sig = IF a.p = "zero" THEN Broken(@, "zero") ELSE Sig("m", x.iv, x.body)]
    [] OTHER -> [x EXCEPT !.sig = Broken(@, "malleable")]

Damage == /\ ph = "alter" /\ Len(hist) < (IF Two THEN 2 ELSE 1)
          /\ \E a \in Alts(f) :
               /\ a.k = "relabel" => f.kind \in Kinds                          \* (there still is a label, at its place)
               /\ a.k \in {"neg", "flip", "swap"} => \A i \in 1..Len(hist) : hist[i] # a     \* (twice may be not at all)
               /\ f' = Alter(f, files[2], a) /\ hist' = Append(hist, a)
          /\ UNCHANGED <<ph, files, open, res>>

SigOk(x, k) == x.sig.tag = "sig" /\ x.sig.key = k /\ x.sig.iv = x.iv /\ x.sig.body = x.body
Plain(x, k) == x.body.tag = "body" /\ x.body.key = k /\ x.body.iv = x.iv

Result(x, kd, k) ==
  IF x.t = "sealed" THEN
    IF x.kind # kd \/ x.ver # "right" \/ x.pad \/ ~SigOk(x, k) THEN "refused"
    ELSE IF Plain(x, k) /\ x.body.kind = kd THEN x.body.c ELSE "refused"
  ELSE IF x.t = "account" THEN IF x.pad \/ ~SigOk(x, k) \/ ~Plain(x, k) THEN "refused" ELSE x.body.c
  ELSE IF Plain(x, k) THEN x.body.c
       \* a stream cipher alone: other bytes decrypt to other text (Monero's format; nothing is promised but for lost bytes and other keys)
       ELSE IF x.body.tag = "broken" /\ x.body.how \in {"flip", "other", "more"} /\ x.iv.tag = "iv" THEN "free"
       ELSE IF x.body.tag = "broken" /\ x.body.how = "drop" THEN "free"
       ELSE "refused"

Open == /\ ph = "alter" /\ ph' = "done"
        /\ \E kd \in IF f.t = "sealed" THEN Opens ELSE {f.t}, k \in Keys : open' = [kind |-> kd, key |-> k] /\ res' = Result(f, kd, k)
        /\ UNCHANGED <<files, f, hist>>
Next == Write \/ Take \/ Damage \/ Open

(* what a sealed file yields was sealed, as that kind, under that key, and whole *)
Authentic == (ph = "done" /\ files[1].t # "keys" /\ res \notin {"refused", "none"}) =>
   \E j \in 1..2 : files[j].kind = open.kind /\ files[j].body.key = open.key /\ files[j].body.c = res
(* an untouched file opens with its key as its kind, and in no other way *)
Whole == (ph = "done" /\ f = files[1]) => (res = files[1].body.c <=> (open.kind = files[1].kind /\ open.key = files[1].body.key))
(* another key opens nothing *)
OtherKey == (ph = "done" /\ res \notin {"refused", "none", "free"}) => \E j \in 1..2 : files[j].body.key = open.key
Emit == ph = "done" => PrintT("@V " \o ToJson([files |-> [j \in 1..2 |-> [kind |-> files[j].kind, key |-> files[j].body.key, c |-> files[j].body.c]], hist |-> hist, open |-> open, res |-> res]))
=============================================================================
