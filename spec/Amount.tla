------------------------------- MODULE Amount -------------------------------
(* Amounts typed in coin units.  A number is a sequence of decimal digits     *)
(* (TLC's integers are too small); one coin is 10^12 atomic units.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Deep
ZEROS == 12

Rep(d, n) == [i \in 1..n |-> d]
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> \/ Head(s) # 0 THEN s ELSE Strip(Tail(s))
RECURSIVE StripEnd(_)
StripEnd(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE StripEnd(SubSeq(s, 1, Len(s) - 1))

MaxAtomic == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>      \* 2^64 - 1

RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE
                ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLeq(Tail(a), Tail(b))
Leq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLeq(a, b)

Refused == <<10>>
(* i.f coins in atomic units *)
Atomic(i, f) ==
  LET g == StripEnd(f) IN
  IF Len(g) > ZEROS THEN Refused
  ELSE LET v == Strip(i \o g \o Rep(0, ZEROS - Len(g)))
       IN IF Leq(v, MaxAtomic) THEN v ELSE Refused

(* i.f * 10^e *)
Shifted(i, f, e) ==
  IF e >= 0 THEN LET g == IF Len(f) < e THEN f \o Rep(0, e - Len(f)) ELSE f
                 IN Atomic(i \o SubSeq(g, 1, e), SubSeq(g, e + 1, Len(g)))
  ELSE LET h == IF Len(i) < -e THEN Rep(0, (-e) - Len(i)) \o i ELSE i
       IN Atomic(SubSeq(h, 1, Len(h) + e), SubSeq(h, Len(h) + e + 1, Len(h)) \o f)

Digits == IF Deep THEN 0..9 ELSE {0, 1, 5, 9}
Ints == {<<>>, <<0>>, <<0, 0, 7>>, <<1,8,4,4,6,7,4,3>>, <<1,8,4,4,6,7,4,4>>, <<1,8,4,4,6,7,4,5>>, <<9,0,0,7,1,9,9>>,
         <<9,9,9,9,9,9,9,9>>, Rep(9, 30), Rep(0, 30) \o <<3>>}
        \cup {<<d>> : d \in Digits} \cup {<<d, e>> : d \in Digits, e \in Digits}
        \cup {<<d>> \o Rep(e, n) : d \in {1, 9}, e \in Digits, n \in {3, 5, 6}}
Fracs == {<<>>, <<0,7,3,7,0,9,5,5,1,6,1,5>>, <<0,7,3,7,0,9,5,5,1,6,1,6>>, <<0,7,3,7,0,9,5,5,1,6,1,5,0,0>>,
          <<0,7,3,7,0,9,5,5,1,6,1,4,9>>, <<2,5,4,7,4,0,9,9,3>>}
         \cup {Rep(0, n) \o <<d>> : d \in Digits, n \in 0..14}
         \cup {Rep(0, n) \o <<d>> \o Rep(0, 12 - n) : d \in Digits, n \in {0, 2, 11, 12}}
         \cup {Rep(d, n) : d \in {3, 9}, n \in {1, 2, 3, 5, 8, 11, 12, 13, 25}}
         \cup (IF Deep THEN {Rep(0, n) \o <<d, e>> : d \in Digits, e \in Digits, n \in {0, 1, 2, 5, 9, 10, 11}} ELSE {<<1,1>>, <<2,9>>, <<0,0,1>>})

(* What a text means: sign "+"/"-", exponents and separators are either taken exactly or refused. *)
Forms == {"plain"} \cup {"plus", "minus", "exp0", "exp3", "exp-3", "exp-12", "exp13"}
Value(i, f, form) ==
  CASE form \in {"plain", "plus", "exp0"} -> Atomic(i, f)
    [] form = "minus" -> IF Atomic(i, f) = <<>> THEN <<>> ELSE Refused
    [] form = "exp3" -> Shifted(i, f, 3)
    [] form = "exp-3" -> Shifted(i, f, -3)
    [] form = "exp-12" -> Shifted(i, f, -12)
    [] form = "exp13" -> Shifted(i, f, 13)

VARIABLES i, f, dot, form
vars == <<i, f, dot, form>>

Init == /\ i \in Ints /\ f \in Fracs
        /\ dot \in BOOLEAN /\ (dot \/ f = <<>>)
        /\ (i # <<>> \/ f # <<>>)
        /\ form \in Forms
        /\ (form # "plain" => i \in {<<0>>, <<1>>, <<1,5>>, <<1,8,4,4,6,7,4,4>>} /\ Len(f) \in {0, 1, 3, 12, 13} /\ dot = (f # <<>>))
Next == UNCHANGED vars

(* Nothing is ever rounded: a value that is not refused, read back, is the one typed. *)
Exact == (form = "plain" /\ Value(i, f, form) # Refused) =>
           LET v == Rep(0, 13) \o Value(i, f, form)
               n == Len(v)
           IN /\ Strip(SubSeq(v, 1, n - ZEROS)) = Strip(i)
              /\ StripEnd(SubSeq(v, n - ZEROS + 1, n)) = StripEnd(f)
InRange == Value(i, f, form) = Refused \/ Leq(Value(i, f, form), MaxAtomic)
Emit == PrintT("@V " \o ToJson([i |-> i, f |-> f, dot |-> dot, form |-> form, v |-> Value(i, f, form)]))
=============================================================================
