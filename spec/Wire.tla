-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The wire format of the protocol messages (protobuf): a message is a     *)
(* sequence of fields, each a key (tag * 8 + wire type) and a value.       *)
(* Numbers are sequences of 7-bit groups, least significant first.         *)
(*                                                                         *)
(* Enumerates messages, their encodings, and damaged encodings, and says   *)
(* what decoding must give: the fields, an error, or "free" where the      *)
(* standard or a reader's subset leaves a choice.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Deep

\* the schema: tag -> (kind, repeated, nested schema 0/1)
Kind(t) == CASE t = 1 -> "uv" [] t = 2 -> "by" [] t = 3 -> "msg" [] t = 4 -> "uv" [] t = 5 -> "by" [] t = 6 -> "msg"
             [] t = 7 -> "bool" [] t = 8 -> "sv" [] t = 9 -> "str" [] t = 20 -> "uv" [] OTHER -> "none"
Rep(t) == t \in {4, 5, 6}
Wt(t) == IF Kind(t) \in {"uv", "bool", "sv"} THEN 0 ELSE 2
Known(t) == Kind(t) # "none"


-----------------------------------------------------------------------------
\* groups of a varint, without leading zero groups
RECURSIVE Norm(_)
Norm(g) == IF Len(g) > 1 /\ g[Len(g)] = 0 THEN Norm(SubSeq(g, 1, Len(g) - 1)) ELSE g
EncV(g) == [i \in 1..Len(g) |-> IF i < Len(g) THEN g[i] + 128 ELSE g[i]]
Num(n) == IF n < 128 THEN <<n>> ELSE <<n % 128, n \div 128>>
Key(t, w) == EncV(Num(8 * t + w))

RECURSIVE EncM(_)
EncF(f) == LET t == f[1] x == f[2] IN
    CASE Wt(t) = 0 -> Key(t, 0) \o EncV(x)
      [] Kind(t) = "msg" -> LET b == EncM(x) IN Key(t, 2) \o EncV(Num(Len(b))) \o b
      [] OTHER -> Key(t, 2) \o EncV(Num(Len(x))) \o x
EncM(m) == IF m = <<>> THEN <<>> ELSE EncF(Head(m)) \o EncM(Tail(m))

\* decoding: <<"ok", fields>>, <<"err", <<>>>> or <<"free", <<>>>>
Err == <<"err", <<>>>>
Free == <<"free", <<>>>>
\* position after the varint at p, 0 if it is cut off or too long
RECURSIVE VEnd(_, _, _)
VEnd(bs, p, n) == IF p > Len(bs) \/ n > 10 THEN 0
                  ELSE IF bs[p] >= 128 THEN VEnd(bs, p + 1, n + 1) ELSE p + 1
Groups(bs, p, q) == Norm([i \in 1..(q - p) |-> bs[p + i - 1] % 128])
\* tenth byte above 1: more than 64 bits
Wide(bs, p, q) == q - p = 10 /\ bs[q - 1] > 1
Val(g) == IF Len(g) > 3 THEN 4000000 ELSE g[1] + (IF Len(g) > 1 THEN 128 * g[2] ELSE 0) + (IF Len(g) > 2 THEN 16384 * g[3] ELSE 0)
Ascii(s) == \A i \in 1..Len(s) : s[i] < 128

RECURSIVE DecM(_, _, _)
DecM(bs, p, acc) ==
    IF p > Len(bs) THEN <<"ok", acc>>
    ELSE LET k == VEnd(bs, p, 1) IN
    IF k = 0 THEN Err
    ELSE IF Wide(bs, p, k) THEN Free
    ELSE LET key == Val(Groups(bs, p, k))
             t == key \div 8
             w == IF k - p > 3 /\ key = 4000000 THEN bs[p] % 8 ELSE key % 8
             e == VEnd(bs, k, 1)
         IN
    IF t = 0 THEN Err
    ELSE IF key = 4000000 THEN (IF w \in {0, 1, 2, 5} THEN Free ELSE Err)     \* a tag of five digits
    ELSE IF Known(t) /\ w # Wt(t) THEN (IF w = 2 /\ Rep(t) /\ Wt(t) = 0 THEN Free ELSE IF w \in {1, 5} THEN Free ELSE Err)
    ELSE IF w \in {1, 5} THEN Free
    ELSE IF w \notin {0, 2} THEN Err
    ELSE IF e = 0 THEN Err
    ELSE IF Wide(bs, k, e) THEN Free
    ELSE LET g == Groups(bs, k, e)
             len == IF w = 2 THEN Val(g) ELSE 0
             nx == e + len
             body == SubSeq(bs, e, nx - 1)
         IN
    IF nx - 1 > Len(bs) THEN Err
    ELSE IF ~Known(t) THEN DecM(bs, nx, acc)
    ELSE IF w = 0 THEN DecM(bs, nx, Append(acc, <<t, g>>))
    ELSE IF Kind(t) = "msg"
         THEN LET s == DecM(body, 1, <<>>) IN
              IF s[1] # "ok" THEN s
              ELSE IF ~Rep(t) /\ \E i \in 1..Len(acc) : acc[i][1] = t THEN Free      \* merged or replaced
              ELSE DecM(bs, nx, Append(acc, <<t, s[2]>>))
    ELSE IF Kind(t) = "str" /\ ~Ascii(body) THEN Free    \* valid UTF-8 or not: see the replay
    ELSE DecM(bs, nx, Append(acc, <<t, body>>))
Dec(bs) == DecM(bs, 1, <<>>)

-----------------------------------------------------------------------------
Nums == {<<0>>, <<1>>, <<127>>, <<0, 1>>, <<127, 127, 127, 127, 15>>, <<0, 0, 0, 0, 16>>, <<127, 127, 127, 127, 127, 127, 127, 127, 127, 1>>}
Byts == {<<>>, <<0>>, <<8, 1>>, <<255, 128, 0>>}
Leaf == {<<1, n>> : n \in Nums} \cup {<<2, b>> : b \in Byts} \cup {<<7, <<0>>>>, <<7, <<1>>>>, <<8, <<0>>>>, <<8, <<1>>>>, <<8, <<127, 127, 127, 127, 15>>>>,
        <<9, <<>>>>, <<9, <<97, 98>>>>, <<20, <<5>>>>, <<4, <<0, 1>>>>, <<5, <<>>>>, <<5, <<10, 0>>>>}
Small == {<<1, <<0, 1>>>>, <<2, <<8, 1>>>>, <<4, <<3>>>>, <<5, <<7>>>>, <<20, <<5>>>>, <<9, <<97>>>>}
Inner == {<<>>} \cup {<<f>> : f \in Small} \cup (IF Deep THEN {<<f, g>> : f \in Small, g \in Small} ELSE {<<<<1, <<1>>>>, <<2, <<8, 1>>>>>>})
Nest == {<<t, m>> : t \in {3, 6}, m \in Inner} \cup {<<6, <<<<3, <<<<1, <<0, 1>>>>>>>>>>>>, <<3, <<<<6, <<>>>>, <<2, <<9>>>>>>>>}
Fields == Leaf \cup Nest
Pairs == {<<f, g>> : f \in Small \cup {<<3, <<<<2, <<8, 1>>>>>>>>, <<6, <<<<1, <<0, 1>>>>>>>>}, g \in IF Deep THEN Fields ELSE Small \cup {<<6, <<>>>>, <<3, <<<<1, <<1>>>>>>>>}}
Msgs == {<<>>} \cup {<<f>> : f \in Fields} \cup Pairs
        \cup {<<<<4, <<1>>>>, <<4, <<0, 1>>>>, <<4, <<1>>>>>>, <<<<5, <<>>>>, <<5, <<1>>>>, <<5, <<>>>>>>, <<<<6, <<>>>>, <<6, <<<<2, <<>>>>>>>>, <<6, <<>>>>>>}

Junk == {<<120, 5>>, <<120, 128, 1>>, <<130, 1, 2, 8, 1>>, <<122, 0>>, <<250, 255, 3, 1, 9>>,      \* unknown fields
         <<120>>, <<122, 3, 1>>, <<122, 200, 1, 7>>, <<0, 0>>, <<2, 0>>, <<123>>, <<124>>, <<126, 1>>, <<128>>, <<10>>, <<18>>, <<18, 5, 1>>, <<26, 2, 8>>,
         <<8, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 1>>, <<128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 128, 1, 0>>, <<8, 128, 0>>, <<136, 0, 5>>}
Bytes == {0, 1, 2, 8, 10, 18, 24, 26, 32, 50, 127, 128, 255}

VARIABLES msg, bs, how
vars == <<msg, bs, how>>
Init == msg \in Msgs /\ bs = EncM(msg) /\ how = <<"enc">>
Next == /\ how = <<"enc">> /\ msg' = msg
        /\ \/ \E k \in 0..Len(bs) - 1 : bs' = SubSeq(bs, 1, k) /\ how' = <<"cut", k>>
           \/ \E p \in 1..Len(bs), b \in Bytes : (Deep \/ Len(msg) < 2) /\ bs' = [bs EXCEPT ![p] = b] /\ bs' # bs /\ how' = <<"byte", p, b>>
           \/ \E j \in Junk, p \in 0..Len(msg) : LET h == EncM(SubSeq(msg, 1, p)) IN
                 bs' = h \o j \o SubSeq(bs, Len(h) + 1, Len(bs)) /\ how' = <<"junk", p, j>>
           \/ \E j \in Junk, p \in 1..Len(msg) : /\ Kind(msg[p][1]) = "msg" /\ (Deep \/ Len(msg) < 2)
                 /\ LET b == EncM(msg[p][2]) \o j IN
                    bs' = EncM(SubSeq(msg, 1, p - 1)) \o Key(msg[p][1], 2) \o EncV(Num(Len(b))) \o b \o EncM(SubSeq(msg, p + 1, Len(msg)))
                 /\ how' = <<"inner", p, j>>

\* what is encoded decodes to itself, and skipping is transparent
Exact == how = <<"enc">> => Dec(bs) = (IF \E i, j \in 1..Len(msg) : i < j /\ msg[i][1] = 3 /\ msg[j][1] = 3 THEN Free ELSE <<"ok", msg>>)
Skip == how[1] = "junk" /\ how[3] \in {<<120, 5>>, <<120, 128, 1>>, <<130, 1, 2, 8, 1>>, <<122, 0>>, <<250, 255, 3, 1, 9>>} /\ Dec(bs)[1] # "free"
        => Dec(bs) = <<"ok", msg>>
Emit == PrintT("@V " \o ToJson([b |-> bs, how |-> how, r |-> Dec(bs)]))
=============================================================================
