-------------------------------- MODULE Curve ---------------------------------
(* Programs over scalars and points, run by every backend.                    *)
(* The curve group is Z_l x Z_8; with the two independent generators G and H   *)
(* of the prime part (nobody knows their relation) every point a program can   *)
(* reach is g*G + h*H + t*T, T a generator of the small part.  A program works  *)
(* on registers; each operation writes one register - which may be one of its   *)
(* own arguments - and leaves the others alone, or answers a question.          *)
EXTENDS Scalars, FiniteSets, TLC, Json

CONSTANTS Mode, Seeds, Steps, Picks   \* Picks = 0: everything (Mode "one"); otherwise one case in so many

(* boundary scalars and their inverses as digits; see Given *)
ScN == <<
  <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<1004, 3933, 2652, 1585, 2066, 3429, 1948, 2607, 2526, 3567, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<1003, 3933, 2652, 1585, 2066, 3429, 1948, 2607, 2526, 3567, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<997, 3933, 2652, 1585, 2066, 3429, 1948, 2607, 2526, 3567, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<4095, 4095, 4095, 4095, 4095, 15, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<0, 0, 0, 0, 0, 16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 256, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 0>>,
  <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<3961, 3522, 2530, 3666, 262, 3334, 3290, 2001, 3507, 3385, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1536, 0>>,
  <<2551, 1966, 3374, 792, 3081, 1714, 3022, 1303, 3311, 1783, 10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2048, 0>>,
  <<255, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<332, 2000, 1328, 1151, 2761, 1667, 4062, 2093, 4, 2690, 4009, 4054, 1157, 463, 955, 2295, 3110, 3568, 70, 3685, 3180, 0>>,
  <<3514, 739, 2114, 1852, 2298, 2317, 2037, 260, 2059, 3742, 3233, 3484, 152, 1302, 3352, 3698, 3564, 1235, 793, 3716, 266, 0>>,
  <<4095, 4095, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<0, 0, 0, 0, 0, 0, 0, 0, 3184, 4047, 4095, 4095, 4095, 4095, 4095, 4095, 3839, 4095, 4095, 4095, 4095, 0>>>>
InvN == <<
  <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<2551, 1966, 3374, 792, 3081, 1714, 3022, 1303, 3311, 1783, 10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2048, 0>>,
  <<3961, 3522, 2530, 3666, 262, 3334, 3290, 2001, 3507, 3385, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1536, 0>>,
  <<1004, 3933, 2652, 1585, 2066, 3429, 1948, 2607, 2526, 3567, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>,
  <<2550, 1966, 3374, 792, 3081, 1714, 3022, 1303, 3311, 1783, 10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2048, 0>>,
  <<1140, 410, 122, 2015, 1803, 95, 2754, 605, 3115, 181, 13, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2560, 0>>,
  <<501, 3179, 2361, 2965, 1488, 3162, 2018, 2057, 2491, 1555, 3880, 984, 2372, 560, 745, 570, 3471, 1091, 777, 3730, 930, 0>>,
  <<749, 2715, 1906, 1275, 3899, 3921, 3641, 3485, 3337, 730, 17, 0, 0, 0, 0, 2816, 2017, 596, 2609, 1309, 3371, 0>>,
  <<2654, 3347, 1348, 873, 1336, 827, 850, 366, 110, 1974, 446, 1150, 293, 3491, 2897, 4050, 2127, 3514, 3887, 518, 2842, 0>>,
  <<1152, 1089, 3233, 2947, 1523, 160, 3640, 2543, 568, 2723, 1814, 4052, 3013, 442, 3846, 347, 2894, 2470, 526, 1937, 469, 0>>,
  <<3819, 1221, 1681, 1253, 3527, 1077, 721, 2964, 3541, 2137, 2755, 1726, 4003, 911, 1876, 334, 2102, 3729, 623, 3183, 3510, 0>>,
  <<8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  <<73, 3836, 2849, 702, 352, 104, 466, 1769, 1607, 3219, 3325, 3790, 3308, 3790, 3308, 3790, 3308, 3790, 3308, 3790, 3308, 0>>,
  <<4014, 2195, 656, 708, 3953, 703, 3749, 2380, 2357, 2074, 3374, 1445, 2912, 3997, 2367, 1615, 3516, 2228, 2150, 1305, 1841, 0>>,
  <<2268, 3686, 2412, 2994, 2461, 835, 22, 3880, 2267, 1560, 3530, 811, 1655, 1372, 2073, 1131, 1125, 1647, 524, 642, 250, 0>>,
  <<3726, 3303, 2794, 2247, 502, 1886, 3196, 898, 3448, 1551, 4080, 2837, 4059, 2837, 4059, 2837, 4059, 2837, 4059, 2837, 4059, 0>>,
  <<3569, 2354, 1315, 373, 63, 2328, 60, 3180, 2697, 162, 1590, 1633, 3543, 2351, 3782, 614, 1419, 3716, 1479, 2500, 3671, 0>>>>
Given == /\ ScN[1] = Zero /\ ScN[2] = One /\ ScN[3] = Small(2) /\ ScN[4] = Small(8) /\ \A k \in 1..3 : ScN[k + 4] = Neg(ScN[k + 1])
         /\ ScN[8] = Less1(Pow2(64)) /\ ScN[9] = Pow2(64) /\ ScN[10] = Pow2(128) /\ ScN[11] = Less1(Pow2(252)) /\ ScN[12] = Pow2(252)
         /\ ScN[13] = InvN[4] /\ ScN[14] = InvN[3] /\ ScN[15] = Small(255) /\ ScN[16] = Mul(Pow2(251), Pow2(251)) /\ ScN[18] = Small(16777215)
         /\ \A k \in DOMAIN ScN : Less(ScN[k], Order) /\ Mul(ScN[k], InvN[k]) = IF k = 1 THEN Zero ELSE One
ASSUME Given
NS == Len(ScN)
(* numbers of 256 bits as they can stand in an encoding *)
Times(n) == SubSeq(Norm([i \in Dig |-> n * Order[i]]), 1, N)
RawN == <<Zero, One, Less1(Order), Order, Plain(Order, One), Times(2), Less1(Times(2)), Times(15), Pow2(252), Less1(Pow2(253)), Pow2(253),
          Pow2(255), Less1(Pow2(255)), [i \in Dig |-> IF i = N THEN 15 ELSE W - 1], Less1(Times(8)), Times(8), Pow2(128)>>
NR == Len(RawN)

Pt(g, h, t) == [g |-> g, h |-> h, t |-> t % 8]
Ident == Pt(Zero, Zero, 0)
PtN == <<Ident, Pt(One, Zero, 0), Pt(Zero, One, 0), Pt(Sub(Zero, One), Zero, 0), Pt(Zero, Zero, 1), Pt(Zero, Zero, 2), Pt(Zero, Zero, 4),
         Pt(Zero, Zero, 7), Pt(One, Zero, 4), Pt(ScN[17], ScN[16], 0), Pt(ScN[17], Zero, 3), Pt(ScN[13], ScN[12], 5), Pt(Sub(Zero, One), Small(2), 6)>>
NP == Len(PtN)

PAdd(p, q) == Pt(Add(p.g, q.g), Add(p.h, q.h), p.t + q.t)
PNeg(p) == Pt(Neg(p.g), Neg(p.h), 8 - p.t)
PMul(s, p) == Pt(Mul(s, p.g), Mul(s, p.h), (s[1] % 8) * p.t)      \* a scalar is its least representative
GMul(s) == Pt(s, Zero, 0)
HMul(s) == Pt(Zero, s, 0)
Eight == Small(8)
InvEight == InvN[4]

(* operation: name, argument kinds ("s" scalar, "p" point), kind of the result, has a form writing into a given object *)
Ops == <<
 <<"sc_add", <<"s", "s">>, "s", TRUE>>, <<"sc_sub", <<"s", "s">>, "s", TRUE>>, <<"sc_mul", <<"s", "s">>, "s", TRUE>>,
 <<"sc_muladd", <<"s", "s", "s">>, "s", TRUE>>, <<"sc_mulsub", <<"s", "s", "s">>, "s", TRUE>>,
 <<"sc_inv", <<"s">>, "s", TRUE>>, <<"sc_copy", <<"s">>, "s", TRUE>>, <<"sc_reencode", <<"s">>, "s", TRUE>>, <<"sc_noreduce", <<"s">>, "s", TRUE>>,
 <<"scalarmult_base", <<"s">>, "p", TRUE>>, <<"scalarmult", <<"p", "s">>, "p", TRUE>>, <<"point_add", <<"p", "p">>, "p", TRUE>>,
 <<"point_sub", <<"p", "p">>, "p", TRUE>>, <<"point_double", <<"p">>, "p", TRUE>>, <<"point_mul8", <<"p">>, "p", TRUE>>,
 <<"point_mulinv8", <<"p">>, "p", FALSE>>, <<"point_norm", <<"p">>, "p", FALSE>>, <<"reencode", <<"p">>, "p", TRUE>>,
 <<"add_keys2", <<"s", "s", "p">>, "p", TRUE>>, <<"add_keys3", <<"s", "p", "s", "p">>, "p", TRUE>>,
 <<"ge_double_scalarmult_base_vartime", <<"s", "p", "s">>, "p", FALSE>>, <<"ge_double_scalarmult_base_vartime2", <<"s", "p", "s", "p">>, "p", FALSE>>,
 <<"ge_double_scalarmult_precomp_vartime", <<"s", "p", "s", "p">>, "p", FALSE>>, <<"ge_double_scalarmult_precomp_vartime2", <<"s", "p", "s", "p">>, "p", FALSE>>,
 <<"scalarmult_h", <<"s">>, "p", FALSE>>, <<"gen_c", <<"s", "a">>, "p", FALSE>>, <<"generate_key_derivation", <<"p", "k">>, "p", FALSE>>,
 <<"identity", <<>>, "p", TRUE>>, <<"sc_0", <<>>, "s", TRUE>>, <<"sc_init", <<"a">>, "s", TRUE>>,
 <<"sc_eq", <<"s", "s">>, "b", FALSE>>, <<"sc_isnonzero", <<"s">>, "b", FALSE>>, <<"sc_get64", <<"g">>, "a", FALSE>>, <<"point_eq", <<"p", "p">>, "b", FALSE>>,
 <<"is_prime_order", <<"p">>, "b", FALSE>>, <<"on_curve", <<"p">>, "b", FALSE>> >>
NO == Len(Ops)

Apply(n, a) ==
  CASE n = "sc_add" -> Add(a[1], a[2]) [] n = "sc_sub" -> Sub(a[1], a[2]) [] n = "sc_mul" -> Mul(a[1], a[2])
    [] n = "sc_muladd" -> Add(a[3], Mul(a[1], a[2])) [] n = "sc_mulsub" -> Sub(a[3], Mul(a[1], a[2]))
    [] n = "sc_inv" -> InvN[CHOOSE k \in DOMAIN ScN : ScN[k] = a[1]] [] n \in {"sc_copy", "sc_reencode", "sc_noreduce", "sc_init", "sc_get64", "point_norm", "reencode"} -> a[1]
    [] n = "scalarmult_base" -> GMul(a[1]) [] n = "scalarmult" -> PMul(a[2], a[1])
    [] n = "point_add" -> PAdd(a[1], a[2]) [] n = "point_sub" -> PAdd(a[1], PNeg(a[2])) [] n = "point_double" -> PAdd(a[1], a[1])
    [] n = "point_mul8" -> PMul(Eight, a[1]) [] n = "point_mulinv8" -> PMul(InvEight, a[1])
    [] n = "add_keys2" -> PAdd(GMul(a[1]), PMul(a[2], a[3]))
    [] n \in {"add_keys3", "ge_double_scalarmult_base_vartime2", "ge_double_scalarmult_precomp_vartime", "ge_double_scalarmult_precomp_vartime2"} -> PAdd(PMul(a[1], a[2]), PMul(a[3], a[4]))
    [] n = "ge_double_scalarmult_base_vartime" -> PAdd(PMul(a[1], a[2]), GMul(a[3]))
    [] n = "scalarmult_h" -> HMul(a[1]) [] n = "gen_c" -> Pt(a[1], a[2], 0)
    [] n = "generate_key_derivation" -> PMul(Eight, PMul(a[2], a[1]))
    [] n = "identity" -> Ident [] n = "sc_0" -> Zero
    [] n \in {"sc_eq", "point_eq"} -> a[1] = a[2] [] n = "sc_isnonzero" -> a[1] # Zero
    [] n = "is_prime_order" -> a[1].t = 0 [] n = "on_curve" -> TRUE

VARIABLES S, P, rnd, prog, start
vars == <<S, P, rnd, prog, start>>

Draw(r) == (r * 1021 + 7) % 1048573
RECURSIVE Drawn(_, _)
Drawn(r, n) == IF n = 0 THEN r ELSE Drawn(Draw(r), n - 1)

(* amounts are numbers of 64 bits, keys are not zero, inverses are known for the named scalars *)
Allowed(o, args) == /\ o[1] = "sc_inv" => \E k \in DOMAIN ScN : ScN[k] = args[1]
                    /\ \A i \in 1..Len(args) : /\ (o[2][i] \in {"a", "g"} => Fits64(args[i])) /\ (o[2][i] = "k" => args[i] # Zero)

Next == /\ Mode = "walk" /\ Len(prog) < Steps
        /\ LET r == [i \in 1..8 |-> Drawn(rnd, i)]
               o == Ops[((r[1] \div 64) % NO) + 1]
               ix == [i \in 1..Len(o[2]) |-> ((r[i + 1] \div 128) % (IF o[2][i] = "p" THEN 3 ELSE 4)) + 1]
               args == [i \in 1..Len(o[2]) |-> IF o[2][i] = "p" THEN P[ix[i]] ELSE S[ix[i]]]
               dst == ((r[6] \div 256) % (IF o[3] = "p" THEN 3 ELSE 4)) + 1
               into == o[4] /\ (r[7] \div 512) % 3 # 0
           IN /\ rnd' = r[8] /\ UNCHANGED start
              /\ IF ~Allowed(o, args) THEN UNCHANGED <<S, P, prog>>
                 ELSE LET v == Apply(o[1], args)
                      IN /\ prog' = Append(prog, [op |-> o[1], ix |-> ix, kinds |-> o[2], dst |-> dst, res |-> o[3], into |-> into, val |-> v])
                         /\ S' = IF o[3] = "s" THEN [S EXCEPT ![dst] = v] ELSE S
                         /\ P' = IF o[3] = "p" THEN [P EXCEPT ![dst] = v] ELSE P

InitWalk == \E sd \in Seeds :
  LET r == [i \in 1..8 |-> Drawn((sd * 7919 + 13) % 1048573, i + 3)]
  IN /\ S = [i \in 1..4 |-> ScN[((r[i] \div 16) % NS) + 1]] /\ P = [i \in 1..3 |-> PtN[((r[i + 4] \div 16) % NP) + 1]]
     /\ rnd = r[8] /\ prog = <<>> /\ start = <<S, P>>

(* one operation, all boundary arguments *)
Pool(k) == IF k = "p" THEN NP ELSE NS
Val(k, i) == IF k = "p" THEN PtN[i] ELSE ScN[i]
Take(o, ix) == Picks = 0 \/ Len(ix) < 2 \/ LET h == Len(o[1]) * 37 + ix[1] * 101 + ix[2] * 17 + (IF Len(ix) > 2 THEN ix[3] * 59 ELSE 0) + (IF Len(ix) > 3 THEN ix[4] * 23 ELSE 0)
                                            IN h % (CASE Len(ix) = 2 -> Picks [] Len(ix) = 3 -> Picks * 8 [] OTHER -> Picks * 100) \in Seeds
Tuples(k) == CASE Len(k) = 0 -> {<<>>} [] Len(k) = 1 -> {<<i>> : i \in 1..Pool(k[1])}
               [] Len(k) = 2 -> {<<i, j>> : i \in 1..Pool(k[1]), j \in 1..Pool(k[2])}
               [] Len(k) = 3 -> {<<i, j, m>> : i \in 1..Pool(k[1]), j \in 1..Pool(k[2]), m \in 1..Pool(k[3])}
               [] OTHER -> {<<i, j, m, n>> : i \in 1..Pool(k[1]), j \in 1..Pool(k[2]), m \in 1..Pool(k[3]), n \in 1..Pool(k[4])}
InitOne == \E k \in 1..NO : LET o == Ops[k] IN \E ix \in {x \in Tuples(o[2]) : Take(o, x)} :
  LET args == [i \in 1..Len(ix) |-> Val(o[2][i], ix[i])]
  IN /\ Allowed(o, args)
     /\ S = <<>> /\ P = <<>> /\ rnd = 0 /\ start = args
     /\ prog = <<[op |-> o[1], kinds |-> o[2], res |-> o[3], into |-> o[4], val |-> Apply(o[1], args)]>>

(* decoding numbers of 256 bits *)
InitRaw == \E i \in 1..NR : /\ S = <<>> /\ P = <<>> /\ rnd = 0 /\ start = RawN[i]
                            /\ prog = <<[op |-> "raw", val |-> Mod(RawN[i]), valid |-> Less(RawN[i], Order), zero |-> RawN[i] = Zero]>>
(* encodings of points: y = base + off with base 0 or the field's q, and a sign bit; whether a y is on the curve is left to the reference *)
InitEnc == \E b \in {0, 1}, off \in -20..20, s \in {0, 1} :
             /\ b = 0 => off >= 0
             /\ b = 1 => off < 19
             /\ S = <<>> /\ P = <<>> /\ rnd = 0 /\ start = <<b, off + 20, s>>
             /\ prog = <<[op |-> "enc", canonical |-> ~(b = 1 /\ off >= 0) /\ ~(s = 1 /\ ((b = 0 /\ off = 1) \/ (b = 1 /\ off = -1)))]>>

(* hashing: what exactly is hashed, and what becomes of the hash.  x stands for Hs of the parts. *)
Idx == {<<0, 0>>, <<0, 1>>, <<0, 127>>, <<0, 128>>, <<0, 16383>>, <<0, 16384>>, <<0, 65535>>, <<31, 65535>>, <<32, 0>>, <<4095, 65535>>, <<4096, 0>>, <<32767, 65535>>, <<65535, 65535>>}
RECURSIVE Groups(_, _)
Groups(v, n) == IF n = 0 THEN <<>> ELSE <<v % 128>> \o Groups(v \div 128, n - 1)
(* 32 bits as five groups of seven: the low two from the low half and so on *)
Seven(i) == Groups(i[2] % 16384, 2) \o <<(i[2] \div 16384) + 4 * (i[1] % 32)>> \o Groups(i[1] \div 32, 2)
RECURSIVE VarInt(_)
VarInt(g) == IF \A k \in 2..Len(g) : g[k] = 0 THEN <<g[1]>> ELSE <<g[1] + 128>> \o VarInt(Tail(g))
Little(i) == <<i[2] % 256, i[2] \div 256, i[1] % 256, i[1] \div 256>>
Part(k, v) == [k |-> k, v |-> v]
InitHash == /\ S = <<>> /\ P = <<>> /\ rnd = 0
  /\ \/ \E p \in DOMAIN PtN, i \in Idx :
          /\ start = <<PtN[p], i>>
          /\ \/ prog = <<[op |-> "derivation_to_scalar", parts |-> <<Part("p", PtN[p]), Part("b", VarInt(Seven(i)))>>, becomes |-> "x"]>>
             \/ \E q \in {2, 9, 10, 13} : prog = <<[op |-> "derive_public_key", parts |-> <<Part("p", PtN[p]), Part("b", VarInt(Seven(i)))>>, becomes |-> "base + x G", base |-> PtN[q]]>>
             \/ \E q \in {2, 5, 17} : prog = <<[op |-> "derive_secret_key", parts |-> <<Part("p", PtN[p]), Part("b", VarInt(Seven(i)))>>, becomes |-> "base + x", base |-> ScN[q]]>>
     \/ \E k \in {2, 5, 11, 17}, i \in Idx, j \in Idx :
          /\ start = <<ScN[k], i, j>>
          /\ prog = <<[op |-> "get_subaddress_secret_key", becomes |-> "x",
                       parts |-> <<Part("b", <<83, 117, 98, 65, 100, 100, 114, 0>>), Part("s", ScN[k]), Part("b", Little(i)), Part("b", Little(j))>>]>>
     \/ \E p \in DOMAIN PtN : start = <<PtN[p]>> /\ prog = <<[op |-> "hash_to_point", parts |-> <<Part("p", PtN[p])>>, becomes |-> "point"]>>
     \/ \E n \in {0, 1, 31, 32, 33, 64, 135, 136, 137, 271, 272, 273, 408, 1000}, o \in {"cn_fast_hash", "keccak_hash", "keccak_2hash", "hash_to_scalar"} :
          start = <<n>> /\ prog = <<[op |-> o, parts |-> <<Part("r", n)>>, becomes |-> CASE o = "hash_to_scalar" -> "x" [] o = "keccak_2hash" -> "hash of hash" [] OTHER -> "hash"]>>
     \/ \E n \in {0, 1, 32, 135, 136, 137, 300}, m \in {0, 1, 32, 136, 200} :
          start = <<n, m>> /\ prog = <<[op |-> "compute_hmac", parts |-> <<Part("r", n), Part("r", m)>>, becomes |-> "hmac"]>>

Init == CASE Mode = "walk" -> InitWalk [] Mode = "one" -> InitOne [] Mode = "hash" -> InitHash [] OTHER -> (InitRaw \/ InitEnc)
Spec == Init /\ [][Next]_vars

(* sanity of the arithmetic itself *)
Vals == {S[i] : i \in 1..Len(S)}
Laws == (Mode = "walk" /\ Len(prog) % 6 = 0) =>
  /\ \A a \in Vals : Less(a, Order) /\ Add(a, Neg(a)) = Zero /\ Mul(a, One) = a
  /\ Mul(S[1], S[2]) = Mul(S[2], S[1]) /\ Sub(Add(S[1], S[2]), S[2]) = S[1]
  /\ Mul(S[1], Add(S[2], S[3])) = Add(Mul(S[1], S[2]), Mul(S[1], S[3]))
  /\ PMul(S[1], PAdd(P[1], P[2])) = PAdd(PMul(S[1], P[1]), PMul(S[1], P[2]))
  /\ PAdd(P[1], PNeg(P[1])) = Ident
Emit == (Mode # "walk" \/ Len(prog) = Steps) => PrintT("@V " \o ToJson([start |-> start, prog |-> prog]))
=============================================================================
